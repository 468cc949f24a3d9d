import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)

T_TESTS="The tests run one RM(2,3)/RM(2,4) instance, one polar (m=4) instance and four CRC vectors with fixed data; "
p("C01","Reed-Muller encoding produces the RM(r,m) codeword of the message",
 "For every RM(r,m) and every information vector, encoding through any of the Reed-Muller codecs yields exactly the codeword whose position j is the XOR of the information bits x_w with (w AND j)=0, where the masks w of Hamming weight at most r are taken in descending order, sent as -1 for bit 0 and +1 for bit 1. Hence distinct messages give distinct codewords, the map is linear over XOR, and the encoder writes all n and only n outputs and leaves the message untouched.",
 ["inputs","configurations"],"all messages of all RM(r,m) with 1<=r<=m that a codec accepts",
 T_TESTS+"they never compare a codeword with an independent definition, and 2^k messages cannot be sampled.",
 ["common/srm_utils.c","dtrm/dtrm0.c","dtrm/dtrm1.c","dtrm_glp/dtrm_glp_main.c"],
 [("Plotkin recursion (u+v|u) of the encoders","common/srm_utils.c mrm_enc_*, smrm_enc_*")],observe=["enc_bpsk output"])
p("C02","Border-node masks select the subcode, and k counts exactly its free bits",
 "For every border-node mask, the code dimension reported by the codec equals the number of information bits the encoder consumes and the decoder produces. Zeroing a border node freezes to zero exactly the information bits of that node and shifts the remaining bits up in unchanged order, so the encoded word is the full-code codeword of the message with zeros at the frozen places.",
 ["inputs","configurations"],"all masks and all messages of every RM(r,m)",
 "No test uses a mask containing a zero for an RM code; masks are exponentially many.",
 ["common/srm_utils.c","dtrm_glp/dtrm_glp_main.c"],[("calc_srm_k / smrm_enc walk the border nodes in decoding order","common/srm_utils.c"),("node_table","dtrm_glp/dtrm_glp_main.c cdc_init")],observe=["cdc_get_k","enc_bpsk"])
p("C03","Polar and CRC-aided polar encoding",
 "For every information-bit mask, message and CRC, the polar encoder's output is the polar transform of the vector holding the message followed by its CRC at the unfrozen places in order and zero at the frozen places, mapped to -1/+1. The reported dimension is the number of unfrozen places minus the CRC length, and the message buffer is not modified.",
 ["inputs","configurations"],"all masks, messages and CRC polynomials with at least crc-length unfrozen places",
 T_TESTS+"an encoder error that the decoder mirrors is invisible to a round trip.",
 ["common/srm_utils.c","polar_scl/ca_polar_scl_main.c","common/crc.c"],[("smrm_par0_enc_bpsk recursion","common/srm_utils.c"),("enc_bpsk appends the CRC","polar_scl/ca_polar_scl_main.c")],observe=["enc_bpsk","cdc_get_k"])
p("C04","CRC is the polynomial remainder and validation is exact",
 "For every message and every CRC polynomial, the computed CRC is the remainder of the message polynomial modulo the generator (leading one implied), delivered in the last crc-length cells of the work buffer. A received word is declared valid if and only if its last crc-length bits equal the CRC of its first message-length bits, so any error burst no longer than the CRC confined to the CRC field is detected; the message is not modified and nothing outside the work buffer is written.",
 ["inputs","configurations"],"all messages, all polynomials, all message lengths not shorter than the CRC",
 "test_crc checks four fixed messages with one polynomial.",
 ["common/crc.c"],[("calc_crc long division","common/crc.c"),("is_valid_crc comparison","common/crc.c")],observe=["calc_crc buffer","is_valid_crc result"])
p("C05","Recursive RM decoder (dtrm0) inverts the encoder on clean channels",
 "Whatever the RM(r,m) code, message, noise level setting and received magnitudes, decoding a word whose every sample has the sign of the transmitted codeword symbol returns exactly the transmitted message. This holds for arbitrarily large and for small positive magnitudes whose products do not vanish when added to one in double precision.",
 ["inputs","configurations"],"all messages, all RM(r,m) accepted, all positive reliability patterns",
 T_TESTS+"they use one noiseless pattern per message sample.",
 ["dtrm/dtrm0.c","formats/formats.h","formats/format_eps5.h"],[("tri0_dec recursion to (0,m) and (m,m) nodes","dtrm/dtrm0.c")],observe=["dec_bpsk"])
p("C06","Recursive RM decoder with first-order leaves (dtrm1) inverts the encoder",
 "Whatever the RM(r,m) code, message, noise level setting and received magnitudes, the decoder that ends at first-order nodes returns exactly the transmitted message when every received sample has the sign of the transmitted symbol. This holds for arbitrarily large and for small positive magnitudes whose products do not vanish when added to one in double precision.",
 ["inputs","configurations"],"all messages, all RM(r,m) accepted, all positive reliability patterns",
 "dtrm1 has no test at all.",
 ["dtrm/dtrm1.c","rm1_ml/rm1_ml.c"],[("tri1_dec recursion to (1,m) and (m,m)","dtrm/dtrm1.c"),("rm1_dec_sh_finp","rm1_ml/rm1_ml.c")],observe=["dec_bpsk"])
p("C07","List decoder with permutations and masks (dtrm_glp) inverts the encoder",
 "For every subcode mask, list size, permutation set and variable-list threshold table the list decoder accepts, decoding a word whose every sample has the sign of the transmitted symbol returns exactly the transmitted message. The result does not depend on which SNR index is selected or on how many permutations are given.",
 ["inputs","configurations"],"all messages, masks and list sizes, permutations with the full code, positive reliability patterns",
 "dtrm_glp has no test at all.",
 ["dtrm_glp/dtrm_glp_main.c","dtrm_glp/dtrm_glp_inner.c"],[("rm_dec list recursion","dtrm_glp/dtrm_glp_inner.c"),("pxarr/pyarr permutation tables","dtrm_glp/dtrm_glp_main.c")],observe=["dec_bpsk"])
p("C08","Polar SCL / CRC-aided polar decoder inverts the encoder on clean channels",
 "For every information-bit mask, list size and CRC, decoding a word whose every sample has the sign of the transmitted symbol returns the transmitted message and reports success, not an erasure. This holds for every message and for all positive reliability magnitudes whose products do not vanish when added to one in double precision.",
 ["inputs","configurations"],"all messages, masks, list sizes, CRCs, positive reliability patterns",
 T_TESTS+"one mask, two list sizes, no CRC erasure path.",
 ["polar_scl/ca_polar_scl_main.c","polar_scl/polar_scl_inner.c"],[("polar_dec list recursion","polar_scl/polar_scl_inner.c"),("get_best_in_list","polar_scl/ca_polar_scl_main.c")],observe=["dec_bpsk result and return code"])
p("C09","Decoders treat all codewords alike (performance independent of the codeword)",
 "Flipping the signs of a received vector according to any codeword changes every decoder's answer exactly by the message of that codeword, and leaves the success/erasure outcome unchanged, barring exact ties between path metrics as computed in double precision. This is what lets the simulator transmit only the zero word and still measure the error rate of the code.",
 ["inputs","configurations"],"all codewords and all received vectors (generic, i.e. tie-free) for every codec",
 "Tests decode only noiseless words or a handful of random ones; the quantifier is over pairs of a codeword and a noise vector.",
 ["dtrm/dtrm0.c","dtrm/dtrm1.c","dtrm_glp/dtrm_glp_inner.c","polar_scl/polar_scl_inner.c","simulators/sim_bg.c"],[("metrics computed from hard decisions and reliabilities only","*_inner.c branch functions")],observe=["dec_bpsk"])
p("C10","First-order Reed-Muller decoding is maximum likelihood",
 "For every received vector, the first-order Reed-Muller decoder returns the message of a codeword with maximal correlation with the received vector, hence no codeword is strictly closer. In particular every pattern of fewer than a quarter of the length hard errors at equal reliability is corrected.",
 ["inputs"],"all received real vectors, all RM(1,m) lengths",
 "rm1_ml has no test; optimality is a comparison with all 2n codewords over a continuum of inputs.",
 ["rm1_ml/rm1_ml.c","dtrm/dtrm1.c"],[("fast Hadamard style recursion with running maximum","rm1_ml/rm1_ml.c rm1_dec_sh_finp")],observe=["rm1 decoder / dec_bpsk with RM_r 1"])
p("C11","A list that never prunes makes the list decoders maximum likelihood",
 "When the list is large enough to hold every candidate, the list decoders return a maximum-likelihood codeword of the (sub)code, i.e. one at minimal Euclidean distance from the received vector, for every received vector. Enlarging the list further does not change the answer.",
 ["inputs","configurations"],"all received vectors, all masks of small codes, list size >= number of codewords",
 "No test compares with exhaustive ML, and the input space is a continuum.",
 ["dtrm_glp/dtrm_glp_inner.c","polar_scl/polar_scl_inner.c"],[("path metrics are exact log-likelihoods","EST*_TO_LNP*"),("final best-of-list selection","rm_dec / polar_dec")],observe=["dec_bpsk"])
p("C12","Pruned list decoding keeps the best paths at every decision",
 "With list size L, polar decoding equals successive-cancellation list decoding: at each unfrozen place every surviving path is extended both ways and the L extensions with the largest exact path likelihood survive, and the answer is the most likely final path (L=1 being plain successive cancellation). No likelier extension is ever discarded in favour of a less likely one.",
 ["inputs","configurations"],"all received vectors, masks, list sizes for polar codes",
 "Tests only see noiseless words, where any list content containing the right path passes.",
 ["polar_scl/polar_scl_inner.c"],[("polar0_branch and qpartition","polar_scl/polar_scl_inner.c")],observe=["dec_bpsk"])
p("C13","CRC-aided decoding: success means a CRC-consistent, best surviving candidate",
 "CRC-aided polar decoding reports success exactly when some final list candidate passes the CRC, and then returns the message of the most likely such candidate, so a successful result always re-encodes to a codeword of the concatenated code. Otherwise it reports an erasure and returns the most likely candidate's message; it never reports anything else for a valid instance.",
 ["inputs","configurations"],"all received vectors, masks, CRCs and list sizes",
 "The tests never reach an erasure or a list in which the likeliest candidate fails the CRC.",
 ["polar_scl/ca_polar_scl_main.c","polar_scl/polar_scl_inner.c","common/crc.c"],[("get_best_in_list over the sorted list","polar_scl/ca_polar_scl_main.c"),("qsort by metric","polar_scl/polar_scl_inner.c polar_dec")],observe=["dec_bpsk result and return code"])
p("C14","Codec calls are independent of history and of other instances",
 "The result of an encode or decode call depends only on its arguments, the instance's parameters and its last noise setting: it is unaffected by earlier calls on that instance and by other live instances of the same codec, even with different parameters. Calls never modify their input arrays.",
 ["histories","inputs","configurations"],"all call sequences interleaving encodes, decodes and noise settings on several instances",
 "Tests use one instance and never compare a call with the same call on a fresh instance.",
 ["dtrm/dtrm0.c","dtrm/dtrm1.c","dtrm_glp/dtrm_glp_inner.c","dtrm_glp/dtrm_glp_main.c","polar_scl/polar_scl_inner.c","common/srm_utils.c"],[("globals re-initialised at every call","rm_dec / polar_dec / smrm_enc_*")],
 state=[("node_table, lists, buffers","file-scope decoder work state","dtrm_glp/dtrm_glp_inner.c, polar_scl/polar_scl_inner.c")],observe=["dec_bpsk","enc_bpsk"])
p("C15","Codec life cycle is memory safe and leak free",
 "For every valid parameter set, initialising, encoding, decoding and closing a codec reads only initialised memory, stays inside the buffers it allocated or was given (n samples, k bits), executes no undefined arithmetic, and releases everything at close. This holds for every received vector, including those that drive the list to its peak size.",
 ["inputs","configurations"],"all valid parameter sets, messages and received vectors",
 "Tests run without sanitizers on three configurations.",
 ["dtrm/dtrm0.c","dtrm/dtrm1.c","rm1_ml/rm1_ml.c","dtrm_glp/dtrm_glp_main.c","dtrm_glp/dtrm_glp_inner.c","polar_scl/ca_polar_scl_main.c","polar_scl/polar_scl_inner.c"],[("get_membuf_size vs. carving in rm_dec/polar_dec","*_main.c / *_inner.c"),("cdc_close","*_main.c")],observe=["memory accesses"])
p("C16","Codec initialisation parses its parameters exactly",
 "Initialisation takes every recognised key with its value whatever the order of keys and in the presence of unknown keys, and builds the same codec. If a mandatory parameter is missing, a value is out of its range or contradicts another one (order above the number of variables, information mask too short, no information bits left, malformed permutations, permutations of a code that is not invariant under them), it returns an error, releases everything it allocated and yields no instance.",
 ["inputs","configurations"],"all orderings of the keys, with interleaved unknown scalar or group parameters, and all subsets of missing mandatory keys",
 "Tests pass one well-formed parameter string per codec.",
 ["dtrm/dtrm0.c","dtrm/dtrm1.c","dtrm_glp/dtrm_glp_main.c","polar_scl/ca_polar_scl_main.c","common/spf_par.h"],[("token loop of cdc_init","*/ cdc_init"),("SPF_SKIP_UNKNOWN_PARAMETER","common/spf_par.h")],observe=["cdc_init result, cdc_get_n, cdc_get_k"])
p("C17","Reliability arithmetic is exact, odd-symmetric and never leaves its range",
 "For every finite channel sample, the decoders' internal reliability is a finite number strictly inside (-1,1) whose sign is opposite to the sample's and which grows with its magnitude; it is never NaN, however strong the sample. The combining rules equal the box-plus and sum rules for log-likelihood ratios up to clipping, keep the range, and path-metric terms are the log-probabilities they stand for.",
 ["inputs"],"all double-precision channel samples and reliability pairs",
 "Tests use samples of moderate size only; overflow of the exponential needs |y| above 709.",
 ["formats/formats.h","formats/format_eps5.h"],[("VY_TO_FORMAT, FORMAT_CLIP, XOR_EST, ADD_EST, EST_TO_LNP*","formats/")],observe=["decoder output for extreme samples"])
p("C18","The simulator counts trials, errors, erasures and ML-bound events exactly",
 "At each SNR point the counters equal, over all trials run, the number of trials, of wrong information bits, of words with at least one wrong bit, of reported erasures, and (when the ML bound is on) of non-erased trials and of those in which the decoder's codeword is strictly closer to the received word than the transmitted one. The displayed and saved rates are these counters over the matching denominators, without overflow, for random and all-zero transmission alike. A trial the decoder aborts with an error is reported, counted nowhere and leaves nothing allocated.",
 ["histories","inputs"],"all sequences of decoder outcomes and transmitted words",
 "The simulator has no test.",
 ["simulators/sim_bg.c"],[("sim_run counting","simulators/sim_bg.c sim_run"),("sim_cur_res_str / sim_save_res","simulators/sim_bg.c")],state=[("sim_point","per-SNR counters","simulators/sim_bg.c")],observe=["sim_cur_res_str, sim_save_res"])
p("C19","The simulator stops each SNR point by its stated rule",
 "A point never ends with fewer trials than its requested minimum and, unless an operator command or the trial cap intervenes, never with fewer block errors than the requested minimum of errors; it always ends once both are reached. The requested-trials figure stays positive and within the cap for every reachable counter state, so no point is cut short or run forever by arithmetic overflow.",
 ["histories","inputs"],"all outcome sequences and all counter values up to the cap",
 "The simulator has no test; the overflow needs tens of millions of trials.",
 ["simulators/sim_bg.c"],[("update_trn_req","simulators/sim_bg.c"),("sim_control","simulators/sim_bg.c")],observe=["sim_run return, sim_state_str"])
p("C20","Interrupting and resuming a simulation does not change its results",
 "However the wall clock slices a simulation into returns from the run routine and however often results are saved or shown in between, the completed simulation performs the same trials in the same order with the same noise levels and ends with the same counters as an uninterrupted one. A return before completion is always reported as not completed, and completion only when every SNR point is done.",
 ["schedules","histories"],"all clock readings, hence all placements of returns, resumptions and saves",
 "The simulator has no test; schedules of the clock are unbounded.",
 ["simulators/sim_bg.c","simulators/main_txt.c"],[("csnrn / counters kept in the instance","simulators/sim_bg.c sim_run")],observe=["final counters and results file"])
p("C21","Saving merges results into the file without losing or double-counting trials",
 "After any sequence of saves by any number of successive simulations into one results file, the file holds for every SNR the exact sums of trials and error counters over all of them, each trial counted once, and SNRs of earlier sessions are kept. Every saved file reads back as written, the busy marker is gone once a save has finished, and an unreadable or inconsistent old file is never overwritten.",
 ["histories","fault_sequences"],"all histories of saves from several sessions with overlapping SNR lists and any counter values",
 "The simulator has no test.",
 ["simulators/sim_bg.c","common/spf_par.c"],[("sim_save_res merge with pt_saved","simulators/sim_bg.c"),("busy flag file","simulators/sim_bg.c")],state=[("pt_saved","counters already written to the file","simulators/sim_bg.c")],observe=["results file content"])
p("C22","Parameter files: comments, includes, grouping and white space parse exactly",
 "Preparsing a parameter file yields the file's tokens in order, with everything from a comment character to the end of the line removed, an opening brace that begins a word and a closing brace that ends it being tokens of their own, and each include directive replaced by the preparsed content of the named file; white space, commas and LF or CRLF line ends only separate. A missing or empty file or one beyond the size limit is reported as an error and no text is lost, duplicated or read past the end, including when the file ends without a newline or in an include.",
 ["inputs"],"all file contents up to the size limit",
 "No test reads a parameter file.",
 ["common/spf_par.c","common/spf_par.h"],[("spf_read_preparse","common/spf_par.c")],observe=["preparsed string"])
p("C23","Channel noise level matches Eb/N0, code rate and what the decoder is told",
 "At each SNR point the noise added to every transmitted symbol is a standard Gaussian draw scaled by exactly 1/sqrt(2*R*10^(EbN0/10)), R being k/n or the fixed rate, and the codec is given the same noise level and SNR index before the first decode at that point. The draws fill every symbol once and come from accepted points of the polar method only.",
 ["inputs","histories"],"all random-number sequences, SNR lists and rates",
 "The simulator has no test.",
 ["simulators/sim_bg.c"],[("copy_add_noise","simulators/sim_bg.c"),("noise_sg and cdc_set_sg / cdc_set_csnrn","simulators/sim_bg.c sim_run")],observe=["codec input samples"])
p("C24","Simulation parameters are read exactly and checked",
 "Simulation set-up accepts its keys in any order next to codec keys and unknown keys, assigns each Eb/N0 value its own trial count (or the common minimum when none is given), and applies defaults of at least one trial and one error. It fails without an instance when no SNR value is given, the output name is too long, or the codec cannot be initialised.",
 ["inputs","configurations"],"all key orderings and value lists",
 "The simulator has no test.",
 ["simulators/sim_bg.c","common/spf_par.h"],[("sim_init token loop","simulators/sim_bg.c")],observe=["sim_init result; run behaviour"])
p("C25","Operator commands act on the current SNR point only and safely",
 "The commands for more trials, fewer trials and next point change only the current point's requested trials: by one half up, by one third down but never below the trials already done, and to the trials already done, respectively. They never affect collected counters or other points, whatever the moment they arrive, including after the last point.",
 ["histories"],"all moments and sequences of commands",
 "The simulator has no test.",
 ["simulators/sim_bg.c","simulators/main_txt.c"],[("sim_control","simulators/sim_bg.c")],observe=["sim_state_str, following run"])
p("C26","The Octave loader returns the saved results unchanged",
 "Loading a results file written by the simulator returns, for each SNR in the file, the same SNR and the bit, word, erasure and ML-bound rates given by the saved counters. Counter products do not overflow and malformed files are rejected without a crash.",
 ["inputs"],"all counter values a results file can hold",
 "The loader is not built by the repository's build and has no test.",
 ["Octave/loadsrf.c"],[("mexFunction parsing and rate computation","Octave/loadsrf.c")],observe=["returned matrices"])
p("C27","Code permutations leave the decoded message in the original bit order",
 "Supplying permutations of the code's coordinates to the list decoder never changes which message a received word denotes: for every permutation of the m coordinate bits, the decoder's output re-encoded with the unpermuted encoder is the codeword the permuted decoding selected. With a single permutation the decision equals that of decoding the permuted received word with the identity permutation and permuting the message back.",
 ["inputs","configurations"],"all coordinate permutations of every RM(r,m), all received vectors",
 "dtrm_glp has no test.",
 ["dtrm_glp/dtrm_glp_main.c","dtrm_glp/dtrm_glp_inner.c"],[("pxarr/pyarr generation","dtrm_glp/dtrm_glp_main.c cdc_init"),("per-path permutation index","dtrm_glp/dtrm_glp_inner.c")],observe=["dec_bpsk"])
p("C28","Hard-decision error patterns below half the minimum distance are corrected",
 "When all samples have equal magnitude, the recursive and list Reed-Muller decoders return the transmitted message for every message and every pattern of fewer than half the minimum distance sign errors. The full-list polar decoder does so with respect to its code's minimum distance.",
 ["inputs","configurations"],"all messages and all error patterns of weight below d/2",
 "Tests decode noiseless words only.",
 ["dtrm/dtrm0.c","dtrm/dtrm1.c","dtrm_glp/dtrm_glp_inner.c"],[("soft Plotkin recursion","dtrm/")],observe=["dec_bpsk"])
p("C29","The simulator program runs to completion, saves and reports failure",
 "The command-line program initialises the simulation from the named file with the options given in any order, keeps running it until it completes or fails, saves the results whenever more than the save interval has passed since the last save and always once at the end, and closes it. Its exit status is zero exactly when initialisation, the run and the final save succeeded; a call without a file name or with a failing initialisation runs and saves nothing.",
 ["histories","schedules","inputs"],"all return-code sequences of the simulation, all clock readings and all orders of the options",
 "The program has no test.",
 ["simulators/main_txt.c"],[("main loop and option parsing","simulators/main_txt.c main")],observe=["calls to sim_*, exit status"])
p("C30","The Reed-Muller list decoder keeps the most likely candidates and returns the best",
 "Decoding a Reed-Muller code or subcode with list size L works over the nodes of its recursive decomposition in order: at a repetition node each surviving candidate is continued with both values, at a full node with its most likely words (all four for two symbols, otherwise the four most likely by symbol reliabilities), frozen nodes are all-zero; the metric of a candidate is the sum of the log-likelihoods of its decisions given the exact soft inputs they imply; whenever more than L candidates exist exactly the L most likely survive, counted over all given permutations together; and the returned message is that of the most likely survivor. A list of size one takes the most likely decision at every node. With a variable list the sizes are tried in the given order until the squared distance between the decision and the received word, divided by the noise variance, is below the threshold of that size.",
 ["inputs","configurations"],"all received vectors, codes, masks, permutations and list sizes; ties of the metric excluded",
 "dtrm_glp has no test.",
 ["dtrm_glp/dtrm_glp_inner.c","dtrm_glp/dtrm_glp_main.c"],[("rm_dec_inner, rm1_branch, rmm_branch, qpartition","dtrm_glp/dtrm_glp_inner.c"),("variable list loop","dtrm_glp/dtrm_glp_main.c dec_bpsk")],observe=["dec_bpsk"])
p("C31","The recursive Reed-Muller decoders take the most likely decision at every node",
 "The decoders without a list split a received word by the (u, u+v) construction: the reliabilities of the v part are those of the modulo-two sum of both halves, v is decoded first, and the reliabilities of the u part combine both halves given the decided v. At every node where the recursion ends (repetition and full nodes, and first-order codes in the variant with maximum-likelihood first-order decoding) the decision is the most likely one given these exact soft inputs. The returned message is the one whose encoding is the word so decided.",
 ["inputs","configurations"],"all received vectors and codes RM(r,m); ties excluded",
 "Tests decode a handful of noiseless words.",
 ["dtrm/dtrm0.c","dtrm/dtrm1.c","rm1_ml/rm1_ml.c"],[("tri0_dec","dtrm/dtrm0.c"),("tri1_dec","dtrm/dtrm1.c"),("rm1_dec","rm1_ml/rm1_ml.c")],observe=["dec_bpsk"])
p("C32","A failure inside a call ends it with an error and leaves no trace",
 "When memory for one buffer cannot be had during cdc_init, enc_bpsk, dec_bpsk, sim_init, sim_run or sim_save_res, that call reports an error (no instance, -1, or a negative code) or, if it did without the buffer, the right result; it never reports success with a wrong one, and never touches memory it did not get. Whatever happens it frees all it allocated, leaves the instance as usable as before, so that later calls give the results they would have given, and leaves the results file as it was. A simulation whose encoder fails stops with an error, and the trial it was in is not counted.",
 ["faults","histories"],"every single allocation of every call, and every encoder call of a run",
 "Tests never run out of memory.",
 ["dtrm/dtrm_main.c","dtrm/dtrm1.c","dtrm_glp/dtrm_glp_main.c","polar_scl/polar_scl_main.c","common/srm_utils.c","simulators/sim_bg.c"],[("allocation checks and ret_err paths","all cdc_init, enc_bpsk, dec_bpsk"),("sim_run buffers and encoder results","simulators/sim_bg.c sim_run")],observe=["return values, allocated memory, later results, results file"])
p("C33","The first-order Reed-Muller decoders return the most likely words",
 "For RM(1,m) rm1_dec_sh (channel samples), rm1_dec_sh_finp and rm1_dec_sh_dotp (reliabilities) return the message of a codeword at least as likely as every other one given the received word, and rm1_dec_lst returns the lsiz most likely codewords, or n if more are asked for, in order of likelihood and each once. They write no more than these messages, accept samples of any strength, free all memory and report when there is none.",
 ["inputs","configurations"],"all received vectors and list sizes; ties and sums of log-likelihood ratios beyond the clipping bound excluded",
 "rm1_ml has no test, and three of its four decoders are not used by any codec built here.",
 ["rm1_ml/rm1_ml.c"],[("rm1_dec_sh, rm1_dec_lst, rm1_dec_sh_finp, rm1_dec_sh_dotp","rm1_ml/rm1_ml.c")],observe=["returned messages"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
