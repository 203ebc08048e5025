#!/usr/bin/env python3
"""Solver-based checks for tgeijten/xo.  usage: run.py setup | check PID [--tier quick|thorough] [--only H] [--keep] | list"""
import sys, os, re, json, subprocess, hashlib, time, shutil, glob, tempfile, threading
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('XO_REPO', '/repo')
BUILD = os.path.join(V, 'build')
CLANG = shutil.which('clang++-18') or shutil.which('clang++') or 'clang++-18'
LLINK = shutil.which('llvm-link-18') or '/usr/lib/llvm-18/bin/llvm-link'
IRFLAGS = ['-std=gnu++17', '-O1', '-gline-tables-only', '-mlong-double-64', '-fno-pic', '-fno-pie', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off',
           '-fsanitize=return,unreachable', '-fsanitize-trap=all', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-D_GLIBCXX_ASSERTIONS', '-DXO_SYM', '-w',
           '-I' + V + '/shim/include', '-I' + V + '/harness', '-I' + REPO, '-I' + REPO + '/contrib']
NATFLAGS = ['-std=gnu++17', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-DXO_SYM', '-DSYM_NATIVE', '-w', '-I' + V + '/harness', '-I' + REPO, '-I' + REPO + '/contrib']
JOBS = 8

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)

def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f: h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:20]

def repo_files():
    r = []
    for d in ('xo', 'contrib'):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            r += [os.path.join(root, f) for f in fs if f.endswith(('.h', '.hpp', '.cpp', '.c', '.inl', '.in', '.txt'))]
    return r

def repo_sources():
    return sorted(f for f in repo_files() if f.endswith('.cpp') and f.startswith(os.path.join(REPO, 'xo') + '/') and '/deprecated/' not in f)

def engine():
    src = glob.glob(V + '/engine/*')
    out = os.path.join(BUILD, 'xosym-' + digest(src))
    if not os.path.exists(out):
        r = sh(['bash', V + '/engine/build.sh', out])
        if r.returncode or not os.path.exists(out):
            print(r.stdout.decode(errors='replace')[-4000:]); raise SystemExit('cannot build the symbolic executor')
    return out

def compile_one(cmd, out):
    """compile to a temporary name, then rename: concurrent runs share the cache"""
    tmp = '%s.%d.%d.tmp' % (out, os.getpid(), threading.get_ident())
    r = sh(cmd + ['-o', tmp])
    if r.returncode == 0 and os.path.exists(tmp): os.replace(tmp, out); return None
    return r.stdout.decode(errors='replace')[-3000:]

class Ctx:
    pass

def build(hfile, want_native=True):
    """bitcode of the repository, of the runtime stand-ins and of one harness file; native objects for replay"""
    os.makedirs(BUILD, exist_ok=True)
    c = Ctx(); c.errors = []; c.native_err = None
    pool = ThreadPoolExecutor(JOBS)
    rk = digest(repo_files(), 'repo' + REPO)
    shim = glob.glob(V + '/shim/**/*', recursive=True); shim = [f for f in shim if os.path.isfile(f)]
    sk = digest(shim, ' '.join(IRFLAGS)); nk = digest([V + '/harness/native.cpp', V + '/harness/sym.h'], ' '.join(NATFLAGS))
    hdrs = glob.glob(V + '/harness/*.h')
    hk = digest([hfile] + hdrs)
    ird = os.path.join(BUILD, 'ir-%s-%s' % (rk, sk)); nd = os.path.join(BUILD, 'nat-%s-%s' % (rk, nk))
    os.makedirs(ird, exist_ok=True); os.makedirs(nd, exist_ok=True)
    base = os.path.basename(hfile)[:-4]
    fe = pool.submit(engine)
    jobs = []
    def ir(src, out, extra=[]):
        if not os.path.exists(out): jobs.append((src, pool.submit(compile_one, [CLANG] + IRFLAGS + extra + ['-emit-llvm', '-c', src], out)))
        return out
    hbc = ir(hfile, os.path.join(ird, 'h_%s_%s.bc' % (base, hk)))
    rt = ir(V + '/shim/rt.cpp', os.path.join(ird, 'rt.bc'), ['-fno-builtin', '-D__NO_INLINE__'])
    bcs = [ir(s, os.path.join(ird, os.path.relpath(s, REPO).replace('/', '_') + '.bc')) for s in repo_sources()]
    for s, f in jobs:
        e = f.result()
        if e:
            if s == hfile or s.endswith('rt.cpp'): print(e); raise SystemExit('cannot compile %s to IR' % s)
            c.errors.append('%s: %s' % (s, e))
    lib = [b for b in [rt] + bcs if os.path.exists(b)]
    c.bc = os.path.join(ird, 'l_%s_%s.bc' % (base, hk))
    if not os.path.exists(c.bc):
        e = compile_one([LLINK, hbc] + ['--override=' + x for x in []] + lib, c.bc)
        if e: print(e); raise SystemExit('cannot link IR')
    c.lib = lib
    if want_native:
        njobs = []
        def nat(src, out):
            if not os.path.exists(out): njobs.append(pool.submit(compile_one, ['g++'] + NATFLAGS + ['-c', src], out))
            return out
        objs = [nat(hfile, os.path.join(nd, 'h_%s_%s.o' % (base, hk))), nat(V + '/harness/native.cpp', os.path.join(nd, 'native.o'))]
        objs += [nat(s, os.path.join(nd, os.path.relpath(s, REPO).replace('/', '_') + '.o')) for s in repo_sources()]
        exe = os.path.join(nd, 'x_%s_%s' % (base, hk))
        def link():
            for f in njobs:
                e = f.result()
                if e: return e
            if not os.path.exists(exe): return compile_one(['g++', '-fsanitize=address'] + objs + ['-lpthread', '-lstdc++fs'], exe)
        c.native = exe; c.fnative = ThreadPoolExecutor(1).submit(link)
    c.engine = fe.result()
    return c

HRE = re.compile(r'^//@\s+(h_\w+)(.*)$', re.M)
def harnesses(hfile):
    """annotation: //@ h_name [real] [div0] [known(ID)] [time(q,t)] quick(a=1,b=2; a=2) thorough(...)"""
    r = []
    for m in HRE.finditer(open(hfile).read()):
        name, rest = m.group(1), m.group(2)
        def grp(k):
            g = re.search(r'\b' + k + r'\(([^)]*)\)', rest); return g.group(1).strip() if g else None
        def sets(s):
            return [dict(kv.split('=') for kv in x.replace(' ', '').split(',') if kv) for x in s.split(';')] if s is not None else None
        q, t = sets(grp('quick')), sets(grp('thorough'))
        q = q if q is not None else [{}]; t = t if t is not None else q
        tm = (grp('time') or '400,800').split(',')
        r.append(dict(name=name, real=bool(re.search(r'\breal\b', re.sub(r'\([^)]*\)', '', rest))), div0=bool(re.search(r'\bdiv0\b', re.sub(r'\([^)]*\)', '', rest))), known=grp('known'), quick=q, thorough=t, time=dict(quick=float(tm[0]), thorough=float(tm[-1])), insts=grp('insts')))
    return r

def hexval(h):
    b = bytes.fromhex(h)
    if len(b) in (1, 2, 4, 8): return '%d' % int.from_bytes(b, 'little', signed=True)
    return repr(b)

def show(inputs):
    return ', '.join('%s=%s' % (i['name'], i['real'] if i['kind'] == 'r' else (hexval(i['hex']) if len(i['hex']) > 2 else repr(bytes.fromhex(i['hex']))[1:])) for i in inputs)

def real_dec(s):
    """z3 rational or decimal to decimal text"""
    s = s.strip().rstrip('?')
    from fractions import Fraction
    try:
        m = re.match(r'^\(?\s*(-)?\s*\(?/\s+\(?(-?)\s*([\d.]+)\)?\s+([\d.]+)\s*\)*$', s)
        if m: v = Fraction(m.group(3)) / Fraction(m.group(4)); v = -v if (m.group(1) or m.group(2)) else v
        else: v = Fraction(s.replace(' ', '').replace('(-', '-').replace(')', ''))
        return '%.17g' % float(v)
    except Exception: return s

def write_replay(path, inputs):
    with open(path, 'w') as f:
        for i in inputs: f.write('%s %s:%s\n' % (i['name'].replace(' ', '_') or 'v', i['kind'], real_dec(i['real']) if i['kind'] == 'r' else i['hex']))

def native_run(c, name, rep, params, timeout=20):
    err = c.fnative.result()
    if err: return None, 'native build failed: ' + err
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0:allocator_may_return_null=1', LC_ALL='C', TZ='UTC')
    d = tempfile.mkdtemp(prefix='xoreplay')
    try:
        r = sh(['bash', '-c', 'ulimit -v unlimited; exec "$@"', '-', c.native, name, rep] + ['%s=%s' % kv for kv in params.items()], timeout=timeout, cwd=d, env=env)
        return r.returncode, r.stdout.decode(errors='replace')[-6000:]
    except subprocess.TimeoutExpired: return 'timeout', ''
    finally: shutil.rmtree(d, ignore_errors=True)

def nearby(c, h, v, path, p, rc0, out0, n=96, want=None):
    """real mode: the model may use values that have no exact double, or values of sin, exp.. that satisfy the axioms only;
    inputs around the model are replayed until the real code shows the violation that the solver found"""
    import random
    from fractions import Fraction
    rnd = random.Random(1); names = [i for i in v['inputs'] if i['kind'] == 'r']
    if not names: return rc0, out0, path, False
    def one(k):
        ins = []
        for i in v['inputs']:
            if i['kind'] == 'r':
                try: x = float(real_dec(i['real']))
                except ValueError: x = 0.0
                a = [0.01, 0.3, 1.0, 3.0][k % 4]
                ins.append(dict(i, real='%.6f' % (vals[k].setdefault((i['name'], id(i)), x + (rs[k].uniform(-a, a) if rs[k].random() < 0.8 else 0.0)))))
            else: ins.append(i)
        f = '%s.n%d' % (path, k); write_replay(f, ins)
        rc, out = native_run(c, h['name'], f, p)
        return rc, out, f
    rs = [random.Random(rnd.random()) for _ in range(n)]; vals = [{} for _ in range(n)]
    with ThreadPoolExecutor(JOBS) as pool:
        for rc, out, f in pool.map(one, range(n)):
            if want:
                if rc == 0 and want in (out or ''): return rc, out, f, True
            elif rc not in (0, 2, 3, None, 'timeout') and 'ASSERT-FAIL' in (out or ''): return rc, out, f, True
    return rc0, out0, path, False

# when a violation is confirmed, the other entries need not be decided: they get a little more time
import threading
STOP = threading.Event(); RUNNING = set()
def stop_others():
    STOP.set()
    for pr in list(RUNNING):
        try: pr.kill()
        except OSError: pass

def run_entry(c, h, params, tier, outdir, idx):
    out = os.path.join(outdir, '%s_%d.json' % (h['name'], idx))
    lim = h['time'][tier]
    cmd = [c.engine, '--bc', c.bc, '--entry', h['name'], '--out', out, '--max-time', str(lim), '--max-viol', '6']
    if h['real']: cmd += ['--fp', 'real']
    if h['div0']: cmd += ['--div0']
    if h['insts']: cmd += ['--max-insts', h['insts']]
    for kv in params.items(): cmd += ['--param', '%s=%s' % kv]
    if STOP.is_set(): return dict(h=h, params=params, rc='stopped', log='', rep=None)
    try:
        pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT); RUNNING.add(pr)
        if STOP.is_set(): pr.kill()
        try: o, _ = pr.communicate(timeout=lim + 100); rc = pr.returncode; log = o.decode(errors='replace')[-1500:]
        except subprocess.TimeoutExpired: pr.kill(); pr.communicate(); rc, log = 'timeout', ''
    finally: RUNNING.discard(pr)
    rep = None
    if os.path.exists(out):
        try: rep = json.load(open(out))
        except Exception as e: log += str(e)
    return dict(h=h, params=params, rc=rc, log=log, rep=rep)

def check(pid, tier, only=None, verbose=False):
    t0 = time.time()
    hfile = os.path.join(V, 'harness', pid + '.cpp')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = {k['id']: k for k in json.load(open(V + '/known_findings.json'))['findings']} if os.path.exists(V + '/known_findings.json') else {}
    c = build(hfile)
    tb = time.time() - t0
    outdir = os.path.join(BUILD, 'out', pid); shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir)
    hs = [h for h in harnesses(hfile) if not only or h['name'] in only.split(',')]
    jobs = [(h, p) for h in hs for p in h[tier]]
    pool = ThreadPoolExecutor(JOBS)
    futs = [pool.submit(run_entry, c, h, p, tier, outdir, i) for i, (h, p) in enumerate(jobs)]
    viol = []; timer = None; problems = []; kf = []; replays = 0; samples = []; mism = []; notes = []
    tot = dict(paths=0, instructions=0, branches=0, forks=0, asserts=0, assert_queries=0, queries=0, solver_calls=0, cache_hits=0, solver_s=0.0, symbolic_vars=0, error_paths=0)
    funcs = set(); per = []; assumptions = set()
    for f in as_completed(futs):
        r = f.result(); h, rep, p = r['h'], r['rep'], r['params']
        tag = '%s(%s)' % (h['name'], ','.join('%s=%s' % kv for kv in p.items()))
        if rep is None and r['rc'] == 'stopped' or STOP.is_set() and rep is None: notes.append('%s: stopped, because a violation was found' % tag); continue
        if rep is None: problems.append('%s: executor ended with %s %s' % (tag, r['rc'], r['log'])); continue
        for k in tot: tot[k] += rep.get(k, 0)
        funcs.update(rep['functions']); assumptions.update(rep['assumptions'])
        per.append(dict(harness=h['name'], bounds=p, mode='exact reals' if h['real'] else 'bit-precise', paths=rep['paths'], instructions=rep['instructions'], queries=rep['queries'], assert_queries=rep['assert_queries'], asserts=rep['asserts'], solver_s=round(rep['solver_s'], 2), wall_s=round(rep['wall_s'], 2), exhausted=rep['exhausted'], reach={k: v['count'] for k, v in rep['reach'].items()}))
        if verbose: print(tag, json.dumps({k: per[-1][k] for k in ('paths', 'instructions', 'queries', 'asserts', 'assert_queries', 'solver_s', 'wall_s', 'exhausted', 'reach')}), 'maxq=%s unk=%s err=%s' % (rep['max_query_s'], rep['unknown'], rep['error_paths']), rep['unsupported'] or '')
        for i, v in enumerate(rep['violations']):
            path = os.path.join(outdir, '%s_%d_%d.replay' % (h['name'], futs.index(f), i))
            write_replay(path, v['inputs'])
            desc = '%s: %s at %s with %s' % (tag, v['msg'], v['loc'], show(v['inputs']))
            rc, out = native_run(c, h['name'], path, p)
            confirmed = rc not in (0, 2, 3, None)
            if not confirmed and h['real'] and rc is not None: rc, out, path, confirmed = nearby(c, h, v, path, p, rc, out)
            m = re.search(r'(ASSERT-FAIL.*|UNCAUGHT.*|ERROR: AddressSanitizer.*|.*Assertion .*failed.*)', out or '')
            desc += ' [native: %s]' % (m.group(1) if m else rc)
            if verbose: print('  engine violation:', desc, '' if confirmed else '(NOT reproduced) rc=%s %s' % (rc, (out or '')[-300:]))
            if not confirmed: mism.append(desc); continue
            if h['known'] and h['known'] in known and known[h['known']]['status'] == 'known': kf.append((h['known'], desc))
            else:
                viol.append((desc, path, p, h['name']))
                if timer is None: timer = threading.Timer(20, stop_others); timer.daemon = True; timer.start()
        if not rep['violations']:
            if not rep['exhausted']: problems.append('%s: not exhausted (%s)' % (tag, rep['unsupported'] or ('timeout' if rep['timed_out'] else 'pending %s' % rep['pending'])))
            if not rep['reach']: problems.append('%s: no reachability witness' % tag)
        # every witness input of this entry is run through the native build: the two must agree
        for lab, w in list(rep['reach'].items())[:6]:
            path = os.path.join(outdir, '%s_%d_%s.wit' % (h['name'], futs.index(f), re.sub(r'\W', '_', lab)))
            write_replay(path, w['inputs'])
            rc, out = native_run(c, h['name'], path, p)
            if len(samples) < 12: samples.append('%s: %s reaches "%s"' % (tag, show(w['inputs'])[:300], lab))
            if rc == 0 and ('REACH ' + lab) in out: replays += 1
            elif h['real'] and 'ASSERT-FAIL' in (out or ''):
                # equalities of exact arithmetic can be off by rounding in the native run: inputs nearby may show the agreement
                if nearby(c, h, w, path, p, rc, out, 32, 'REACH ' + lab)[3]: replays += 1
                else: notes.append('%s: witness for %s: native result differs by rounding %s' % (tag, lab, (out or '')[-200:]))
            elif not rep['violations']: mism.append('%s: witness for %s: native run ended with %s %s' % (tag, lab, rc, (out or '')[-400:]))
    if timer: timer.cancel()
    per.sort(key=lambda e: (e['harness'], str(e['bounds'])))
    wall = time.time() - t0
    if mism and not viol: problems += ['engine and native build disagree: ' + m for m in mism]
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2), violations=len(viol),
              coverage=dict(states=tot['paths'] + tot['forks'], transitions=tot['branches'], traces_validated_against_impl=replays, samples=samples, exhaustive=not problems and not viol,
                            symbolic_paths=tot['paths'], instructions_executed_symbolically=tot['instructions'], queries_discharged=tot['queries'], solver_calls=tot['solver_calls'], assertion_queries=tot['assert_queries'], assertions_checked=tot['asserts'], solver_s=round(tot['solver_s'], 2),
                            functions_encoded=sorted(funcs), harnesses=per, known_findings=[k for k, _ in kf], notes=notes, ir_compile_errors=[e[:300] for e in c.errors]),
              assumptions=sorted(assumptions) + ['one thread, unless the harness schedules a second one (M01); stand-in iostream/libc runtime in /verif/shim; allocation never fails', 'bounds per harness as listed under coverage.harnesses; inputs outside them are not covered'])
    os.makedirs(V + '/evidence', exist_ok=True)
    with open(V + '/evidence/%s.json' % pid, 'w') as f: json.dump(ev, f, indent=1)
    for k in sorted(set(k for k, _ in kf)):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]['what']))
    print('%s %s: %d harness runs, %d paths, %d branches, %d queries (%.1fs solver), %d witnesses replayed natively, build %.1fs, total %.1fs' % (pid, tier, len(jobs), tot['paths'], tot['branches'], tot['queries'], tot['solver_s'], replays, tb, wall))
    if viol:
        rd = os.path.join(V, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
        for i, (d, path, p, hn) in enumerate(viol[:5]):
            dst = os.path.join(rd, '%s_%d.replay' % (pid, i)); shutil.copy(path, dst)
            with open(dst, 'a') as f: f.write('# %s\n# replay: %s %s %s %s\n' % (d, c.native, hn, dst, ' '.join('%s=%s' % kv for kv in p.items())))
            print('  ' + d)
            print('VIOLATION property=%s replay=%s' % (pid, dst))
        return 1
    for n in notes: print('NOTE ' + n)
    if problems:
        for p in problems[:12]: print('INCONCLUSIVE ' + p)
        return 2
    return 0

def prune():
    """keep the cache small: old repository builds go"""
    ds = sorted(glob.glob(BUILD + '/ir-*') + glob.glob(BUILD + '/nat-*'), key=os.path.getmtime)
    for d in ds[:-12]: shutil.rmtree(d, ignore_errors=True)

def main():
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    if not a or a[0] == 'list': print('\n'.join(sorted(os.path.basename(f)[:-4] for f in glob.glob(V + '/harness/[A-Z]*.cpp')))); return 0
    if a[0] == 'setup': print('executor:', engine()); return 0
    if a[0] == 'check':
        tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
        only = a[a.index('--only') + 1] if '--only' in a else None
        prune()
        return check(a[1], tier, only, '-v' in a)
    return 2
if __name__ == '__main__': sys.exit(main())
