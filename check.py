#!/usr/bin/env python3
"""Decides one property of Falcon2 by symbolic execution of its current sources (see DESIGN.md).
usage: check.py ID [--tier quick|thorough] [--run NAME] [--keep]  |  check.py --replay FILE"""
import fcntl, sys, os, json, subprocess, time, re, shutil, glob, hashlib, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__)); R = os.environ.get('FSX_REPO', '/repo'); T0 = time.time(); B = V + '/build'
sys.path.insert(0, V)
from checks import CHECKS
CFLAGS = ['-std=c++17', '-O1', '-g', '-w', '-fno-vectorize', '-fno-slp-vectorize']
def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def must(cmd, **k):
    r = sh(cmd, **k)
    if r.returncode: raise Broken('command failed: %s\n%s' % (' '.join(cmd)[:400], r.stdout[-3000:]))
    return r.stdout
class Broken(Exception): pass
def ensure_engine():
    h = hashlib.sha256()
    for d in ('engine', 'rt'):
        for f in sorted(glob.glob(V + '/' + d + '/*')): h.update(open(f, 'rb').read())
    h.update(open(V + '/setup.sh', 'rb').read())
    st = B + '/stamp'; os.makedirs(B, exist_ok=True); lock = open(B + '/lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)   # (one builds, the others wait)
    if os.path.exists(st) and open(st).read().split()[:1] == [h.hexdigest()] and all(os.path.exists(B + '/' + x) for x in ('fsx', 'rt.bc', 'native.o', 'natstr.o')): return
    must(['bash', V + '/setup.sh'])
def config_h(inc):
    s = open(R + '/src/include/falcon/config.h.in').read()
    num = {'FALCON_VERSION_MAJOR': '2', 'FALCON_LITTLE_ENDIAN': '1', 'FALCON_HOST_SYSTEM': 'UNIX'}
    on = {'FALCON_SYSTEM_UNIX', 'FALCON_TRACE_GC'}
    s = re.sub(r'#cmakedefine\s+(\w+).*', lambda m: ('#define ' + m[1]) if m[1] in on else '/* #undef %s */' % m[1], s)
    s = re.sub(r'@(\w+)@', lambda m: num.get(m[1], '0'), s)
    os.makedirs(inc + '/falcon', exist_ok=True); open(inc + '/falcon/config.h', 'w').write(s)
def sources(kinds):
    out = []
    for k in kinds:
        if k == 'engine': out += sorted(glob.glob(R + '/src/engine/*.cpp'))
        elif k == 'fut': out += sorted(glob.glob(R + '/src/fut/*.cpp')) + [f for f in sorted(glob.glob(R + '/src/fut/*.c++')) if 'win' not in os.path.basename(f)]
        else: out += sorted(glob.glob(R + '/' + k))
    seen = []
    for f in out:
        if f not in seen and not f.endswith('main.cpp'): seen.append(f)
    return seen
class Job:
    found = False
    def __init__(s, cid, run, tier, work):
        s.cid, s.run, s.tier = cid, run, tier
        s.w = work + '/' + run['name']; os.makedirs(s.w, exist_ok=True)
        s.params = dict(run.get('params', {}))
        if tier == 'thorough': s.params.update(run.get('thorough', {}))
        s.opts = list(run.get('opts', [])) + (list(run.get('thorough_opts', [])) if tier == 'thorough' else [])
        s.time = run.get('time', 300) if tier == 'quick' else run.get('thorough_time', 600)
        s.defs = ['-D%s' % d for d in run.get('defs', [])] + ['-DP_%s=%s' % (k, v) for k, v in s.params.items()]
        s.inc = ['-I' + V + '/harness', '-I' + work + '/include', '-I' + R + '/src/include']
        s.threads = run.get('threads', False); s.o0 = run.get('o0', False)
        s.cflags = [c for c in CFLAGS if c != '-O1'] + ['-O0', '-Xclang', '-disable-O0-optnone'] if s.o0 else CFLAGS
    def srcs(s): return [V + '/harness/' + s.run['src']] + sources(s.run.get('repo', []))
    def compile(s, pool):
        s.t0 = time.time()
        def one(f):
            o = s.w + '/' + os.path.basename(f) + '.bc'
            fl = s.defs + s.run.get('cflags', []) if f.startswith(V) else s.run.get('repo_cflags', [])
            must(['clang++', '-x', 'c++'] + s.cflags + fl + s.inc + ['-emit-llvm', '-c', f, '-o', o]); return o
        bcs = list(pool.map(one, s.srcs()))
        must(['llvm-link-18'] + bcs + ['-o', s.w + '/code.bc'])
        if s.o0: must(['opt-18', '-passes=function(mem2reg)', s.w + '/code.bc', '-o', s.w + '/code.bc'])      # optimisation must not pick values for uninitialised bytes
        must(['llvm-link-18', s.w + '/code.bc', B + '/rt.bc', '-o', s.w + '/l.bc'])
        must(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=fsx_main,fsx_thread_main', s.w + '/l.bc', '-o', s.w + '/all.bc'])
    def native_build(s):
        fl = s.defs + s.run.get('cflags', []); s.nat = []
        if s.threads:
            for mode, arg in (('thread', ['tsan']), ('address', [])):
                o = s.w + '/inst_' + mode
                must([B + '/fsx', '--instrument', s.w + '/code.bc', o + '.bc'] + arg)
                must(['clang', '-O1', '-g', '-w', '-fsanitize=' + mode, o + '.bc', B + '/native.o'] + ([B + '/natstr.o'] if mode == 'thread' else []) + ['-o', o, '-lstdc++', '-lm', '-lpthread']); s.nat.append(o)
        else:
            san = ['-O0'] if s.o0 else ['-O1', '-ftrivial-auto-var-init=pattern', '-fsanitize=address']
            def one(f):
                o = s.w + '/' + os.path.basename(f) + '.o'
                must(['g++', '-x', 'c++', '-std=c++17', '-g', '-w'] + san + (fl if f.startswith(V) else s.run.get('repo_cflags', [])) + s.inc + ['-c', f, '-o', o]); return o
            with cf.ThreadPoolExecutor(8) as p: objs = list(p.map(one, s.srcs()))
            o = s.w + '/nat'; must(['g++'] + ([] if s.o0 else ['-fsanitize=address']) + objs + [B + '/native.o', '-o', o, '-lpthread'] + ['-Wl,--wrap=__cxa_guard_' + x for x in ('acquire', 'release', 'abort')]); s.nat = [o]
    def engine(s):
        out = s.w + '/out'
        if s.tier == 'quick': s.time = int(max(60, min(120 if Job.found else s.time, 640 - (time.time() - T0))))       # the whole check has 900 s
        for f in glob.glob(out + '.*'): os.unlink(f)
        cmd = [B + '/fsx', s.w + '/all.bc', '--rt', B + '/rt.bc', '--out', out, '--repo', R + '/', '--jobs', str(s.run.get('jobs', 8)), '--time', str(s.time), '--maxwit', '16'] + s.opts
        for k, v in s.params.items(): cmd += ['--param', '%s=%s' % (k, v)]
        t = time.time()
        try: r = sh(cmd, timeout=s.time + 90)
        except subprocess.TimeoutExpired: r = None; sh(['pkill', '-9', '-f', s.w + '/all.bc'])
        s.engine_s = time.time() - t
        s.viol, s.wit, s.stat, s.func, s.reach, s.incomplete = [], [], {}, set(), set(), set()
        if r is None: s.incomplete.add('engine timeout')
        elif r.returncode: s.incomplete.add('engine exit %d: %s' % (r.returncode, r.stdout[-500:]))
        for f in sorted(glob.glob(out + '.*')):
            for l in open(f, errors='replace'):
                k, _, v = l.rstrip('\n').partition(' ')
                try:
                    if k == 'VIOL': s.viol.append(json.loads(v))
                    elif k == 'WIT': s.wit.append(json.loads(v))
                    elif k == 'STAT':
                        n, x = v.split(); x = float(x); s.stat[n] = max(s.stat.get(n, 0), x) if n == 'maxquery' else s.stat.get(n, 0) + x
                    elif k == 'FUNC': s.func.add(v)
                    elif k == 'REACH': s.reach.add(v)
                    elif k == 'INCOMPLETE': s.incomplete.add(v)
                    elif k == 'CRASH': s.incomplete.add('engine worker crashed ' + v)
                except Exception: s.incomplete.add('bad engine output')
        Job.found = Job.found or bool(s.viol)
        for lab in s.run.get('reach', []):
            if lab not in s.reach and not s.viol: s.incomplete.add('vacuous: label %s never reached' % lab)
    def native(s, tr, fills=(170,), timeout=12, stop=False):
        inp = s.w + '/in.txt'; open(inp, 'w').write('\n'.join(x[2] for x in tr['inputs']) + '\n')
        res = []
        for exe in s.nat:
            for fill in fills:
                env = dict(os.environ, FSX_INPUT=inp, FSX_FILL=str(fill), ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1', TSAN_OPTIONS='exitcode=66:halt_on_error=1')
                for k, v in s.params.items(): env['FSX_P_' + k] = str(v)
                if s.threads:
                    sc = s.w + '/sched.txt'; open(sc, 'w').write(' '.join(map(str, tr['sched'])) + '\n'); env['FSX_SCHED'] = sc
                cwd = s.w + '/cwd'; shutil.rmtree(cwd, ignore_errors=True); os.makedirs(cwd)
                pre = ['setarch', '-R'] if exe.endswith('_thread') else []
                try: r = subprocess.run(pre + [exe], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, stdin=subprocess.DEVNULL)
                except subprocess.TimeoutExpired:
                    res.append(('hang', 'timeout', ''))
                    if stop: return res
                    continue
                o = r.stdout.decode(errors='replace'); e = r.stderr.decode(errors='replace')
                m = re.search(r'FSX-FAIL (.*)', o)
                what = 'ok' if r.returncode == 0 and 'FSX-DONE' in o else 'assume-false' if r.returncode == 78 else 'check: ' + m[1] if m else {99: 'AddressSanitizer', 66: 'ThreadSanitizer', 76: 'bad deallocation'}.get(r.returncode, 'exit %d' % r.returncode)
                res.append((what, o, e))
                if stop and what not in ('ok', 'assume-false'): return res
        return res
    def confirm(s, v):
        for what, o, e in s.native(v, fills=(170, 0, 255, 1), stop=True):
            if what not in ('ok', 'assume-false'): return what, (o[-1500:] + e[-2500:])
        return None, ''
def fname(f):
    r = sh(['c++filt', f]).stdout.strip(); return r[:160]
def main():
    if sys.argv[1] == '--replay': return replay(sys.argv[2])
    cid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None
    for i, a in enumerate(sys.argv):
        if a == '--tier': tier = sys.argv[i + 1]
        if a == '--run': only = sys.argv[i + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = T0; ensure_engine(); chk = CHECKS[cid]
    work = B + '/work-' + cid + (os.environ.get('FSX_WORK') or ''); shutil.rmtree(work, ignore_errors=True); os.makedirs(work); config_h(work + '/include')
    jobs = [Job(cid, r, tier, work) for r in chk['runs'] if (not only or r['name'] == only) and (tier == 'thorough' or not r.get('thorough_only'))]
    viols, unconf, incomplete, wit_ok, wit_bad, samples = [], [], [], 0, [], []
    known = []
    if os.path.exists(V + '/known_findings.json'): known = [k for k in json.load(open(V + '/known_findings.json')) if k.get('property') == cid and k.get('status') == 'known']
    cpool = cf.ThreadPoolExecutor(8); npool = cf.ThreadPoolExecutor(2); nf = {}
    try:
        with cf.ThreadPoolExecutor(3) as cp:
            comp = [cp.submit(j.compile, cpool) for j in jobs]
            for j, c in zip(jobs, comp):
                c.result(); nf[j] = npool.submit(j.native_build)
            par = chk.get('parallel', 1)
            if par > 1:
                with cf.ThreadPoolExecutor(par) as ep: list(ep.map(lambda j: j.engine(), jobs))
            else:
                for j in jobs: j.engine()
        for j in jobs:
            nf[j].result()
            for i in sorted(j.incomplete): incomplete.append(j.run['name'] + ': ' + i)
            for v in j.viol:
                what, log = j.confirm(v); v['run'] = j.run['name']; v['native'] = what; v['log'] = log
                kf = next((k for k in known if k.get('run') in (None, v['run']) and re.search(k['match'], v['kind'] + ': ' + v['msg'] + ' @ ' + v['where'])), None)
                if what and kf: v['known'] = kf['what']
                (viols if what else unconf).append(v)
                if len(viols) >= 3: break
            if not j.viol:
                pick = [w for w in j.wit if not w['undef']][:j.run.get('wits', 6)]
                for w in pick:
                    rs = j.native(w)
                    for what, o, e in rs[:1] if not j.threads else rs:
                        obs = re.findall(r'OBS (\S+=\d+)', o)
                        if what == 'ok' and (obs == w['obs'] or (j.threads and sorted(obs) == sorted(w['obs']))): wit_ok += 1
                        else: wit_bad.append('%s: native %s on %s (observed %s, engine %s) %s' % (j.run['name'], what, w['inputs'], obs[:12], w['obs'][:12], (o[-300:]+e[-1200:])))
                    if len(samples) < 12: samples.append({'run': j.run['name'], 'inputs': [[a, c] for a, b, c in w['inputs']][:30], 'schedule': w['sched'][:60], 'observed': w['obs'][:20]})
    except Broken as e:
        print(e); print('ERROR property=%s: the machinery could not run' % cid); return 2
    tot = {}
    for j in jobs:
        for k, v in getattr(j, 'stat', {}).items(): tot[k] = max(tot.get(k, 0), v) if k == 'maxquery' else tot.get(k, 0) + v
    funcs = sorted(set().union(*[j.func for j in jobs])) if jobs else []
    dem = sh(['c++filt'], input='\n'.join(funcs)).stdout.split('\n') if funcs else []
    ev = {'property': cid, 'tier': tier, 'seed': seed, 'level': chk.get('level', 'model_checking'), 'wall_s': round(time.time() - t0, 2), 'violations': len([v for v in viols if 'known' not in v]),
          'assumptions': chk.get('assumptions', []) + ['clang 18 lowers the sources to IR faithfully; the engine\'s IR semantics and runtime model of libstdc++/libc (checked against native replays of path witnesses)'],
          'coverage': {'states': int(tot.get('paths', 0)), 'transitions': int(tot.get('forks', 0) + tot.get('transitions', 0)), 'traces_validated_against_impl': wit_ok, 'samples': samples,
                       'exhaustive_within_bounds': not incomplete, 'instructions_executed_symbolically': int(tot.get('insts', 0)), 'assertions_decided': int(tot.get('checks', 0)), 'solver_queries': int(tot.get('queries', 0)), 'solver_sat': int(tot.get('sat', 0)), 'solver_unsat': int(tot.get('unsat', 0)), 'solver_unknown': int(tot.get('unknown', 0)), 'solver_integer_queries': int(tot.get('lia', 0)), 'solver_time_s': round(tot.get('solvertime', 0), 2), 'slowest_query_s': round(tot.get('maxquery', 0), 3), 'redundant_schedules_pruned': int(tot.get('sleepblocked', 0)),
                       'functions_encoded': [d[:140] for d in dem if d][:110], 'functions_encoded_total': len(funcs), 'bounds': {j.run['name']: {'text': j.run.get('bounds', ''), 'params': j.params, 'options': j.opts, 'paths': int(j.stat.get('paths', 0)), 'queries': int(j.stat.get('queries', 0)), 'engine_s': round(j.engine_s, 2)} for j in jobs}, 'incomplete': incomplete, 'unconfirmed': [v['kind'] + ': ' + v['msg'] + ' @ ' + v['where'] for v in unconf][:10]}}
    if not os.environ.get('FSX_WORK'): os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open(V + '/evidence/%s.json' % cid, 'w'), indent=1)
    rc = 0; os.makedirs(V + '/replay', exist_ok=True)
    for n, v in enumerate(viols):
        p = '%s/replay/%s-%d.json' % (V, cid, n) if not os.environ.get('FSX_WORK') else '/tmp/%s-%s-%d.json' % (os.environ['FSX_WORK'], cid, n); json.dump(dict(v, property=cid, tier=tier), open(p, 'w'), indent=1)
        if 'known' in v: print('KNOWN-FINDING: property=%s %s' % (cid, v['known'])); continue
        print('  [%s] %s: %s\n    at %s\n    inputs %s%s\n    native replay: %s' % (v['run'], v['kind'], v['msg'], v['where'], [[a, c] for a, b, c in v['inputs']], (' schedule %s' % v['sched'][:80]) if v['sched'] else '', v['native']))
        print('VIOLATION property=%s replay=%s' % (cid, p)); rc = 1
    if rc == 0 and unconf:
        for v in unconf: print('UNCONFIRMED [%s] %s: %s at %s inputs %s sched %s\n   %s' % (v['run'], v['kind'], v['msg'], v['where'], [[a, c] for a, b, c in v['inputs']], v['sched'][:80], v['stack'][:600]))
        rc = 2
    if rc == 0 and wit_bad:
        for w in wit_bad[:5]: print('WITNESS MISMATCH ' + w)
        rc = 2
    if rc == 0 and incomplete:
        for i in incomplete[:10]: print('INCOMPLETE ' + i)
        rc = 2
    print('%s %s: %d paths, %d assertions, %d queries (%.1fs solver), %d witnesses replayed, %.1fs %s' % (cid, tier, tot.get('paths', 0), tot.get('checks', 0), tot.get('queries', 0), tot.get('solvertime', 0), wit_ok, time.time() - t0, {0: 'HELD', 1: 'VIOLATED', 2: 'NO ANSWER'}[rc]))
    if '--keep' not in sys.argv: shutil.rmtree(work, ignore_errors=True)
    return rc
def replay(p):
    v = json.load(open(p)); cid = v['property']; ensure_engine(); work = B + '/work-replay'; shutil.rmtree(work, ignore_errors=True); os.makedirs(work); config_h(work + '/include')
    j = Job(cid, next(r for r in CHECKS[cid]['runs'] if r['name'] == v['run']), v.get('tier', 'quick'), work)
    with cf.ThreadPoolExecutor(8) as pool: j.compile(pool)
    j.native_build(); what, log = j.confirm(v); print(log); print('replay:', what or 'not reproduced'); shutil.rmtree(work, ignore_errors=True); return 1 if what else 0
if __name__ == '__main__': sys.exit(main())
