// Stand-in for the part of the MEX interface the loader uses; implemented in h_load.c.
#ifndef MEX_H
#define MEX_H
#include <stddef.h>
typedef struct mxArray_s mxArray;
typedef size_t mwSize;
typedef ptrdiff_t mwIndex;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char **keys);
mxArray *mxCreateDoubleScalar(double v);
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c);
void mxSetFieldByNumber(mxArray *a, mwIndex i, int f, mxArray *v);
void mxSetField(mxArray *a, mwIndex i, const char *key, mxArray *v);
double *mxGetPr(const mxArray *a);
char *mxArrayToString(const mxArray *a);
const char *mexFunctionName(void);
int mexPrintf(const char *f, ...);
void mexErrMsgTxt(const char *s);
void *mxMalloc(mwSize n);
void *mxCalloc(mwSize n, mwSize s);
void mxFree(void *p);
void mxDestroyArray(mxArray *a);
void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]);
#endif
