#!/usr/bin/env python3
"""Solver-based check of one property of /repo.

usage: run_check.py <PROPERTY-ID> [--tier quick|thorough] [--job SUBSTR] [-v]

The functions a property depends on are compiled from /repo's working tree to LLVM bitcode together
with a harness, executed symbolically by engine/ecsym, and the property's assertions are decided for all
values within the bounds of each job. Counterexamples are replayed against the natively compiled
code (ASan+UBSan, MSan for uninitialised reads); only reproduced ones are reported as violations.
"""
import sys, os, json, subprocess, shutil, time, threading, tempfile, re, glob
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
REPO = os.environ.get('VERIF_REPO', '/repo')
ENGINE = os.path.join(HERE, '.build', 'engine', 'ecsym')
CORES = os.cpu_count() or 8

def log(*a):
    print(*a, flush=True)

def sh(cmd, timeout=600, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b''
        return 124, o.decode(errors='replace') if isinstance(o, bytes) else o

def ensure_engine():
    src = [os.path.join(HERE, 'engine', f) for f in ('dom.cpp', 'dom.h', 'ir.cpp', 'ir.h', 'exec.cpp', 'models.inc')]
    if os.path.exists(ENGINE) and all(os.path.getmtime(ENGINE) >= os.path.getmtime(f) for f in src):
        return
    os.makedirs(os.path.dirname(ENGINE), exist_ok=True)
    import fcntl
    with open(os.path.join(HERE, '.build', 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(ENGINE) and all(os.path.getmtime(ENGINE) >= os.path.getmtime(f) for f in src):
            return
        rc, out = sh(['bash', os.path.join(HERE, 'engine', 'build.sh')])
        if rc:
            log(out); log('ERROR: the engine does not build'); sys.exit(2)

def checks_base():
    import checks
    return checks.BASE_FILES

class BuildError(Exception):
    pass

class Targets:
    """bitcode and native builds of (harness, defines, repository sources)"""
    def __init__(self, spec, work):
        self.spec, self.work, self.lock, self.done = spec, work, threading.Lock(), {}
    def flags(self, t):
        s = self.spec[t]
        return (['-ffp-contract=off', '-g', '-w', '-DUSE_STDLIB_RND', '-I' + HERE + '/lib', '-I' + HERE + '/harness', '-I' + REPO]
                + ['-I' + REPO + '/' + d for d in s.get('inc', [])] + ['-D' + d for d in s.get('def', [])])
    def sources(self, t):
        s = self.spec[t]
        src = list(s['src'])
        # files a change may have added next to the encoded ones
        for d in sorted({os.path.dirname(f) for f in src} | {'common', 'formats'}):
            for f in sorted(glob.glob(os.path.join(REPO, d, '*.c'))):
                f = os.path.relpath(f, REPO)
                if f not in src and f not in checks_base(): src.append(f)
        return [os.path.join(HERE, 'harness', s['harness'])] + [os.path.join(REPO, f) for f in src if os.path.exists(os.path.join(REPO, f))]
    def get(self, t, kind):
        with self.lock:
            ev = self.done.get((t, kind))
            first = ev is None
            if first:
                ev = self.done[(t, kind)] = {'ev': threading.Event(), 'out': None, 'err': None}
        if not first:
            ev['ev'].wait()
        else:
            try:
                ev['out'] = self.build(t, kind)
            except BuildError as e:
                ev['err'] = str(e)
            ev['ev'].set()
        if ev['err']:
            raise BuildError(ev['err'])
        return ev['out']
    def build(self, t, kind):
        d = os.path.join(self.work, 'b_%s_%s' % (t, kind)); os.makedirs(d, exist_ok=True)
        if kind == 'bc':
            cmd = ['clang', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin', '-DSYMBOLIC'] + self.flags(t) + ['-c', '-emit-llvm']
            extra = [os.path.join(HERE, 'lib', 'libc_model.c')]
        else:
            san = {'asan': ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=alignment', '-fno-sanitize-recover=all'],
                   'msan': ['-fsanitize=memory'], 'plain': []}[kind]
            cmd = ['clang', '-O1', '-fno-omit-frame-pointer'] + san + self.flags(t) + ['-c']
            extra = [os.path.join(HERE, 'lib', 'sym_native.c')]
        objs, procs = [], []
        for i, f in enumerate(self.sources(t) + extra):
            o = os.path.join(d, 'm%d.o' % i); objs.append(o)
            procs.append((f, subprocess.Popen(cmd + [f, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors='replace')))
        bad = ''
        for f, p in procs:
            out = p.communicate()[0]
            if p.returncode: bad += '%s: %s\n' % (f, out[-1500:])
        if bad: raise BuildError(bad)
        if kind == 'bc':
            rc, out = sh(['llvm-link'] + objs + ['-o', d + '/all.bc'])
            if rc: raise BuildError(out)
            rc, out = sh(['opt', '-passes=sroa,early-cse,simplifycfg', d + '/all.bc', '-o', d + '/opt.bc'])
            if rc: raise BuildError(out)
            return d + '/opt.bc'
        wrap = '-Wl,' + ','.join('--wrap=' + w for w in 'malloc calloc realloc free fopen fclose'.split() + self.spec[t].get('wrap', []))
        rc, out = sh(['clang'] + san + [wrap] + objs + ['-lm', '-o', d + '/replay'])
        if rc: raise BuildError(out)
        return d + '/replay'

def dparams(job):
    r = []
    for k, v in job['params'].items(): r += ['-D', '%s=%s' % (k, v)]
    return r

def replay(tg, job, path, kinds, scratch, obs=None, timeout=25):
    """returns (kind, what) when the native run violates the property, else None; and the exit code"""
    last = None
    for kind in kinds:
        try: exe = tg.get(job['target'], kind)
        except BuildError as e: last = ('build', str(e)); continue
        os.makedirs(scratch, exist_ok=True)
        cwd = tempfile.mkdtemp(dir=scratch)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=98:allocator_may_return_null=1:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1:exitcode=98:halt_on_error=1', MSAN_OPTIONS='exitcode=98')
        cmd = ['bash', '-c', 'ulimit -s unlimited 2>/dev/null; ulimit -f 200000; exec "$@"', 'x', exe] if kind != 'asan' else ['bash', '-c', 'ulimit -f 200000; exec "$@"', 'x', exe]
        cmd += dparams(job) + (['--obs', obs] if obs and kind == 'asan' else []) + [path]
        if job.get('recursion'): cmd[2] = 'ulimit -f 200000; exec "$@"'
        rc, out = sh(cmd, timeout=timeout, cwd=cwd, env=env)
        shutil.rmtree(cwd, ignore_errors=True)
        if rc == 99: return kind, [l for l in out.splitlines() if 'REPLAY-VIOLATION' in l][-1:] or ['assertion'], rc
        if rc == 98:
            ls = [l for l in out.splitlines() if 'ERROR' in l or 'runtime error' in l or 'WARNING: MemorySanitizer' in l or re.search(r'#\d .* in ', l)]
            return kind, ls[:4], rc
        if rc == 124: return kind, ['no termination within %d s' % timeout], rc
        if rc < 0 or rc > 128: return kind, ['killed by signal %d' % (-rc if rc < 0 else rc - 128)], rc
        last = rc
    return None, None, last

def read_cex(path):
    kind, msg, ins = '', '', []
    for l in open(path, errors='replace'):
        if l.startswith('# kind '): kind = l[7:].strip()
        elif l.startswith('# msg '): msg = l[6:].strip()
        elif l[0] == '#': pass
        elif l[0] != 'o': ins.append(l.strip())
    return kind, msg, ins

def parse_obs(path):
    r = []
    for l in open(path, errors='replace'):
        if l.startswith('o '):
            f = l.split(None, 2); r.append((f[1], f[2].strip() if len(f) > 2 else ''))
    return r

def same_obs(a, b):
    if len(a) != len(b): return False
    for (n, x), (m, y) in zip(a, b):
        if n != m: return False
        if x == y or x == 'undef': continue
        try:
            fx, fy = float(x), float(y)
        except ValueError: return False
        if fx == fy or (fx != fx and fy != fy): continue
        if abs(fx - fy) > 1e-6 * max(1.0, abs(fx), abs(fy)): return False
    return True

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--job', default=None)
    ap.add_argument('-v', action='store_true'); ap.add_argument('--keep', action='store_true'); ap.add_argument('--first', action='store_true', help='start no job after the first violation (for sweeps over planted changes)')
    A = ap.parse_args()
    import checks
    tier = A.tier if A.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ensure_engine()
    jobs = checks.jobs(A.id, tier)
    if A.job: jobs = [j for j in jobs if A.job in j['name']]
    work = os.path.join(HERE, '.build', 'work', '%s-%d' % (A.id, os.getpid()))
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    rdir = os.path.join(HERE, 'evidence', 'replays', A.id)
    shutil.rmtree(rdir, ignore_errors=True)
    tg = Targets(checks.TARGETS, work)
    budget = 420 if tier == 'quick' else 7200
    deadline = t0 + budget
    cond = threading.Condition(); free = [CORES]
    results, findings = [], []
    known = [f for f in json.load(open(os.path.join(HERE, 'known-findings.json')))['findings'] if f['property'] == A.id and f.get('status') == 'open']

    def run_job(ix, job):
        res = {'job': job, 'status': 'ok', 'notes': [], 'validated': 0, 'mismatch': 0, 'viol': [], 'samples': []}
        results.append(res)
        try: bc = tg.get(job['target'], 'bc')
        except BuildError as e:
            res['status'] = 'build'; res['notes'].append(str(e)[:2000]); return
        out = os.path.join(work, 'j%d' % ix); os.makedirs(out)
        tl = min(job['time'], max(5, deadline - time.time()))
        cmd = [ENGINE, bc, '--out', out, '--jobs', str(job['j']), '--time', str(tl), '--samples', str(job.get('samples', 2)), '--max-instr', str(job.get('max_instr', 4e8)), '--qtimeout', str(job.get('qtimeout', 15000)), '--policy', str(job.get('policy', 0))]
        if 'leafcap' in job: cmd += ['--leafcap', str(job['leafcap'])]
        rc, txt = sh(cmd + dparams(job), timeout=tl + 30)
        try: st = json.load(open(out + '/stats.json'))
        except Exception:
            res['status'] = 'inconclusive'; res['notes'].append('engine: ' + txt[-300:]); return
        res['stats'] = st
        cexs = sorted(glob.glob(out + '/cex_*.txt'))
        scratch = os.path.join(work, 's%d' % ix)
        for c in cexs[:6]:
            kind, msg, ins = read_cex(c)
            order = ['msan', 'asan', 'plain'] if kind.startswith('uninit') else ['asan', 'msan', 'plain']
            rjob = dict(job, recursion=kind.startswith('recursion'))
            k, what, rrc = replay(tg, rjob, c, order, scratch)
            if k:
                os.makedirs(rdir, exist_ok=True)
                name = '%s_%s' % (re.sub(r'[^A-Za-z0-9_.-]', '_', job['name']), os.path.basename(c))
                dst = os.path.join(rdir, name); shutil.copy(c, dst)
                with open(dst + '.how', 'w') as f:
                    f.write('harness %s, sources %s, parameters %s\nreplayed with %s: %s\n%s: %s\n' % (checks.TARGETS[job['target']]['harness'], checks.TARGETS[job['target']]['src'], job['params'], k, what, kind, msg))
                res['viol'].append({'kind': kind, 'msg': msg.strip(), 'replay': dst, 'native': k, 'what': what, 'inputs': ins[:40]})
            else:
                res['notes'].append('not reproduced natively: %s %s (exit %s)' % (kind, msg[:160], rrc))
                res['status'] = 'unconfirmed'
            if len(res['viol']) >= 2: break
        for s in sorted(glob.glob(out + '/sample_*.txt'))[:job.get('samples', 2)]:
            ob = s + '.native'
            k, what, rrc = replay(tg, job, s, ['asan'], scratch, obs=ob)
            if k and not res['viol']:
                os.makedirs(rdir, exist_ok=True)
                dst = os.path.join(rdir, re.sub(r'[^A-Za-z0-9_.-]', '_', job['name']) + '_' + os.path.basename(s)); shutil.copy(s, dst)
                res['viol'].append({'kind': 'native', 'msg': 'replay of a solver model on the real code: ' + '; '.join(what), 'replay': dst, 'native': k, 'what': what, 'inputs': []})
            elif rrc == 0 and os.path.exists(ob):
                a, b = parse_obs(s), parse_obs(ob)
                if same_obs(a, b): res['validated'] += 1
                else:
                    res['mismatch'] += 1
                    if A.v: log('MISMATCH', job['name'], [(x, y) for x, y in zip(a, b) if x != y][:5], len(a), len(b))
            else: res['mismatch'] += 1
            if len(res['samples']) < 2: res['samples'].append({'inputs': [l.strip() for l in open(s, errors='replace') if l[0] not in '#o'][:24], 'observed': [' '.join(o) for o in parse_obs(s)[:12]]})
        miss = [c for c in job['cover'] if c not in st['covers']]
        if miss and not res['viol']: res['status'] = 'inconclusive'; res['notes'].append('not reached: ' + ','.join(miss))
        if st['inconclusive'] or st['unsupported']:
            if res['status'] == 'ok': res['status'] = 'inconclusive'
            res['notes'].append('inconclusive %d unsupported %d %s' % (st['inconclusive'], st['unsupported'], st['unsupported_what']))
        if st['violations'] and not cexs: res['status'] = 'inconclusive'

    def worker(ix, job):
        need = min(job['j'], CORES)
        with cond:
            while free[0] < need: cond.wait()
            free[0] -= need
        try:
            if A.first and any(r['viol'] for r in results): return
            if time.time() < deadline - 3: run_job(ix, job)
            else: results.append({'job': job, 'status': 'skipped', 'notes': ['time budget'], 'validated': 0, 'mismatch': 0, 'viol': [], 'samples': []})
        except Exception as e:
            results.append({'job': job, 'status': 'error', 'notes': [repr(e)], 'validated': 0, 'mismatch': 0, 'viol': [], 'samples': []})
        finally:
            with cond:
                free[0] += need; cond.notify_all()
    ths = [threading.Thread(target=worker, args=(i, j)) for i, j in enumerate(jobs)]
    for t in ths: t.start()
    for t in ths: t.join()
    results.sort(key=lambda r: r['job']['name'])

    # ---- verdict
    viol, knownhit = [], set()
    for r in results:
        for v in r['viol']:
            hit = None
            for f in known:
                if f['job'] == r['job']['name'] and f['match'] in v['msg'] + ' ' + ' '.join(map(str, v['what'])): hit = f
            if hit: knownhit.add(hit['id'])
            else: viol.append((r, v))
    tot = lambda k: sum(r.get('stats', {}).get(k, 0) for r in results)
    funcs = sorted({'%s:%s' % (os.path.relpath(f[1], REPO), f[0]) for r in results for f in r.get('stats', {}).get('functions', []) if f[1].startswith(REPO)})
    stat = {}
    for r in results: stat[r['status']] = stat.get(r['status'], 0) + 1
    ev = {'property': A.id, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
          'coverage': {
              'states': tot('paths'), 'transitions': tot('branches') + tot('splits'),
              'traces_validated_against_impl': sum(r['validated'] for r in results),
              'samples': [dict(s, job=r['job']['name']) for r in results for s in r['samples'][:1]][:6],
              'states_are': 'symbolic paths explored to their end, each standing for every input satisfying its path condition',
              'transitions_are': 'symbolic branches merged into the formula or split into paths',
              'functions_encoded': funcs, 'instructions_interpreted': tot('instrs'),
              'branches_merged': tot('merges'), 'solver_queries': tot('queries'), 'solver_sat': tot('sat'), 'solver_unsat': tot('unsat'), 'solver_unknown': tot('unknown'), 'solver_s': round(tot('solver_s'), 3),
              'assertions_by_solver_query': tot('asserts_smt'), 'assertions_by_canonical_form': tot('asserts_eq') + tot('asserts_nf'), 'assertions_constant_on_path': tot('asserts_conc'), 'end_of_path_solver_confirmations': tot('final_queries'),
              'jobs': [{'name': r['job']['name'], 'bounds': r['job'].get('bounds') or r['job']['params'], 'status': r['status'], 'paths': r.get('stats', {}).get('paths', 0), 'queries': r.get('stats', {}).get('queries', 0), 'symbolic_inputs': r.get('stats', {}).get('inputs', 0), 'wall_s': r.get('stats', {}).get('wall_s', 0), 'notes': r['notes']} for r in results],
              'jobs_by_status': stat, 'sample_mismatches': sum(r['mismatch'] for r in results),
          },
          'assumptions': checks.assumptions(A.id)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not A.job:
        json.dump(ev, open(os.path.join(HERE, 'evidence', A.id + '.json'), 'w'), indent=1)
    if A.v or viol or any(r['status'] != 'ok' for r in results):
        for r in results:
            if A.v or r['viol'] or r['status'] != 'ok':
                s = r.get('stats', {})
                log('%-34s %-12s paths=%s q=%s t=%.1f val=%d mis=%d %s' % (r['job']['name'], r['status'], s.get('paths'), s.get('queries'), s.get('wall_s', 0), r['validated'], r['mismatch'], '; '.join(r['notes'])[:600]))
                for v in r['viol']: log('    %s: %s | native %s: %s' % (v['kind'], v['msg'][:300], v['native'], '; '.join(map(str, v['what']))[:300]))
    log('%s %s: %d jobs %s, %d paths, %d queries, %.1f s solver, %d native validations, %.1f s' % (A.id, tier, len(results), stat, tot('paths'), tot('queries'), tot('solver_s'), ev['coverage']['traces_validated_against_impl'], time.time() - t0))
    if not A.keep: shutil.rmtree(work, ignore_errors=True)
    for f in known:
        if f['id'] in knownhit: log('KNOWN-FINDING: property=%s %s' % (A.id, f['what']))
    if viol:
        seen = set()
        for r, v in viol:
            if v['msg'] in seen: continue
            seen.add(v['msg'])
            log('VIOLATION property=%s replay=%s' % (A.id, os.path.relpath(v['replay'], HERE)))
        sys.exit(1)
    good = sum(1 for r in results if r['status'] in ('ok', 'unconfirmed'))
    if results and not good and not any(r.get('stats', {}).get('paths') for r in results):
        log('ERROR: no job of %s could be decided' % A.id); sys.exit(2)
    sys.exit(0)
main()
