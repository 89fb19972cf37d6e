#!/usr/bin/env python3
# Development aid: generates /verif/seeded/<id>/ from a description, confirms it in a scratch copy of /repo
# (bound over /repo in a private mount namespace), and runs this property's check on it.
import json, os, subprocess, sys, shutil, tempfile
V = '/verif/seeded'
LOG = ['src/engine/logsystem.cpp', 'src/engine/logger.cpp', 'src/engine/logstream.cpp']
FUT = ['src/fut/testcase.cpp', 'src/fut/unittest.cpp', 'src/fut/marktime-unix.c++']
DEMO = '''#!/bin/bash
# Builds demo.cpp against the sources in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); trap 'find "$d" -depth -delete' EXIT
g++ -std=c++17 -w -pthread %s -I_build/include/falcon -Isrc/include -x c++ "$here/demo.cpp" %s -o "$d/demo" || exit 2
cd "$d" && timeout 120 ./demo
'''
SEEDS = {}
def seed(id, prop, edits, demo, needs, breaks, src=(), flags='-O1 -g', script=None):
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, src=list(src), flags=flags, script=script)
def write(id):
    s = SEEDS[id]; d = '%s/%s' % (V, id); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(dir='/tmp/sd')
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
    diff = ''
    for f in dict.fromkeys(e[0] for e in s['edits']):
        text = subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + f]).decode(); new = text
        for e in s['edits']:
            if e[0] != f: continue
            assert new.count(e[1]) == (e[3] if len(e) > 3 else 1), (id, new.count(e[1]), e[1]); new = new.replace(e[1], e[2])
        a, b = t + '/a/' + f, t + '/b/' + f
        for p, x in ((a, text), (b, new)): os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(x)
        r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a/' + f, 'b/' + f], cwd=t, stdout=subprocess.PIPE)
        diff += r.stdout.decode()
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(s['demo'].strip('\n') + '\n')
    open(d + '/demo.sh', 'w').write(s['script'] or DEMO % (s['flags'], ' '.join('"%s"' % x for x in s['src']))); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(t)
def confirm(id, tests=True):
    d = '%s/%s' % (V, id); t = '/tmp/sd/c-' + id
    shutil.rmtree(t, ignore_errors=True); os.makedirs(t + '/seed')
    for f in os.listdir(d):
        if f not in ('patch.diff', 'meta.json'): shutil.copy(d + '/' + f, t + '/seed/' + f)
    subprocess.check_call(['cp', '-a', '/repo', t + '/repo'])
    sh = '''mount --bind %s/repo /repo && cd /repo && git checkout -q -- . && 
bash /opt/vp/build.sh >%s/b0 2>&1 || { echo CLEANBUILD; exit; }
timeout 300 bash %s/seed/demo.sh >%s/d0 2>&1; echo demo-clean $?
git apply %s/patch.diff || { echo APPLY; exit; }
bash /opt/vp/build.sh >%s/b1 2>&1 || { echo BUILD; tail -20 %s/b1; exit; }
timeout 300 bash %s/seed/demo.sh >%s/d1 2>&1; echo demo-bug $?
%s
''' % (t, t, t, t, d, t, t, t, t, ('bash /opt/vp/test.sh %s/o.json >%s/t1 2>&1' % (t, t)) if tests else '')
    r = subprocess.run(['unshare', '-Urm', 'bash', '-c', sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
    bad = ''
    if tests and os.path.exists(t + '/o.json'):
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o = set(json.load(open(t + '/o.json'))['passed']); bad = 'tests failing: %s' % sorted(base - o)[:5] if base - o else 'tests ok %d' % len(base)
    out = ' '.join(r.split('\n')) + ' ' + bad
    ok = 'demo-clean 0' in out and 'demo-bug' in out and 'demo-bug 0' not in out and 'tests ok' in out
    tail = '' if ok else '\n'.join(open(t + '/' + x).read()[-600:] for x in ('d0', 'd1') if os.path.exists(t + '/' + x))
    shutil.rmtree(t)
    return ('CONFIRMED ' if ok else 'REJECTED ') + id + ': ' + out + ('\n' + tail if tail else '')
def check(id, tier='quick'):
    d = '%s/%s' % (V, id); prop = json.load(open(d + '/meta.json'))['property']; t = '/tmp/sd/k-' + id; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    subprocess.check_call('git -C /repo archive HEAD | tar x -C ' + t, shell=True); subprocess.check_call(['git', 'apply', '--directory=' + t.lstrip('/'), '--unsafe-paths', d + '/patch.diff'], cwd='/')
    import time; s = time.time()
    r = subprocess.run(['python3', 'check.py', prop, '--tier', tier], cwd='/verif', env=dict(os.environ, FSX_REPO=t, FSX_WORK='-'+id), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode(); shutil.rmtree(t)
    return '%s %s exit %d %.0fs %s' % ('CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + prop in out else 'MISSED', id, r.returncode, time.time() - s, [l for l in out.split('\n') if 'VIOLATION' in l or 'FAIL' in l or 'rror' in l][:2])
