#!/usr/bin/env python3
"""Library for writing seeded/<id>/ folders: seed(id, property, edits, demo C text, target, needs, breaks)."""
import os, json, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = { # compiler options for the repository's sources, sources
    'dtrm0': ('-DDEC_NEEDS_SIGMA', 'dtrm/dtrm0.c common/srm_utils.c common/spf_par.c'),
    'dtrm1': ('-DDEC_NEEDS_SIGMA', 'dtrm/dtrm1.c rm1_ml/rm1_ml.c common/srm_utils.c common/spf_par.c'),
    'glp': ('-DDEC_NEEDS_SIGMA -DDEC_NEEDS_CSNRN', 'dtrm_glp/dtrm_glp_main.c dtrm_glp/dtrm_glp_inner.c common/srm_utils.c common/spf_par.c'),
    'polar': ('-DDEC_NEEDS_SIGMA', 'polar_scl/ca_polar_scl_main.c polar_scl/polar_scl_inner.c common/crc.c common/srm_utils.c common/spf_par.c'),
    'crc': ('', 'common/crc.c'),
    'rm1': ('', 'rm1_ml/rm1_ml.c'),
    'spf': ('', 'common/spf_par.c'),
    'sim': ('-DDEC_NEEDS_SIGMA -DDEC_NEEDS_CSNRN -DUSE_STDLIB_RND', 'simulators/sim_bg.c common/spf_par.c'),
    'main': ('-Dmain=prog_main', 'simulators/main_txt.c common/ui_txt.c'),
    'octave': ('-I"$here"', 'Octave/loadsrf.c common/spf_par.c'),
}
HEAD = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "common/typedefs.h"
#include "interfaces/codec.h"
int show_msg(char *s){return 0;} int err_msg(char *s){return 0;} int msg_printf(char *s,...){return 0;} void msg_flush(void){}
#define FAIL(...) do { printf(__VA_ARGS__); printf("\\n"); exit(1); } while (0)
'''
def seed(id, prop, edits, demo, target, needs, breaks, san='address,undefined', extra={}):
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    by = {}
    for f, old, new, *nth in edits:
        t = by.get(f) or open(REPO + '/' + f, newline='').read()
        if '\r\n' in t: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if nth:
            at = -1
            for _ in range(nth[0]): at = t.index(old, at + 1)
            by[f] = t[:at] + new + t[at + len(old):]
            continue
        assert t.count(old) == 1, (id, f, t.count(old), old)
        by[f] = t.replace(old, new)
    orig = {f: open(REPO + '/' + f, newline='').read() for f in by}
    for f, t in by.items(): open(REPO + '/' + f, 'w', newline='').write(t)
    p = subprocess.run(['git', '-C', REPO, 'diff'], stdout=subprocess.PIPE).stdout
    for f, t in orig.items(): open(REPO + '/' + f, 'w', newline='').write(t)
    open(d + '/patch.diff', 'wb').write(p)
    open(d + '/demo.c', 'w').write(demo if demo.startswith('//nohead') else HEAD + demo)
    for n, t in extra.items(): open(d + '/' + n, 'w').write(t)
    fl, src = SRC[target]
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# cwd: the repository. Exit 0 when the behaviour holds.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -r "$t"' EXIT
f="-w -O1 -g %s -I."
gcc $f %s -c "$here/demo.c" -o "$t/demo.o" || exit 98
gcc $f %s "$t/demo.o" %s -o "$t/demo" -lm || exit 98
repo=$PWD
cd "$t" && REPO=$repo ASAN_OPTIONS=detect_leaks=%d timeout 250 ./demo
''' % ('-fsanitize=%s -fno-sanitize-recover=all' % san if san else '', '' if target == 'main' else fl, fl, src, 1 if san == 'leak' else 0))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
