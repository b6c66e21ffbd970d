"""development tool: build and confirm one planted bug.
usage: mkseed.py FILE.py   where FILE.py defines S(id, prop, file, [(old, new)...], demo, needs, breaks)"""
import sys, os, subprocess, json, shutil, tempfile, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right; cwd is the repository
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'find "$t" -type f -delete; rmdir "$t"' EXIT
g++ -O1 -w %s -DTOON_USE_LAPACK -I . "$here/demo.cc" -o "$t/demo" -llapack || exit 2
timeout 60 "$t/demo"
'''
W = '/tmp/seedwork'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def work(i):
    r = '%s%d/repo' % (W, i)
    if not os.path.exists(r):
        os.makedirs(os.path.dirname(r), exist_ok=True)
        sh('cp -a /repo %s' % r)
        for f in ('build.sh', 'test.sh', 'toon_build.sh', 'toon_test.py', 'toon_test.sh'):
            if os.path.exists('/opt/vp/' + f):
                s = open('/opt/vp/' + f).read().replace('/repo', r).replace('/opt/vp', os.path.dirname(r))
                open(os.path.join(os.path.dirname(r), f), 'w').write(s)
        for f in os.listdir('/opt/vp'):
            if not os.path.exists(os.path.join(os.path.dirname(r), f)):
                try: shutil.copy('/opt/vp/' + f, os.path.dirname(r))
                except Exception: pass
    sh('git -C %s checkout -q --force --detach 2>/dev/null; git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (r, r, r))
    return r
def one(a):
    (id, prop, file, edits, demo, needs, breaks, flags), slot = a
    r = work(slot)
    files = file if isinstance(file, list) else [file] * len(edits)
    for f, (o, n) in zip(files, edits):
        s = open(os.path.join(r, f)).read()
        if s.count(o) != 1: return id, 'edit matches %d times: %s' % (s.count(o), o[:80])
        open(os.path.join(r, f), 'w').write(s.replace(o, n))
    diff = sh('git -C %s diff' % r).stdout
    d = os.path.join(V, 'seeded', id)
    t = tempfile.mkdtemp()
    open(t + '/demo.cc', 'w').write(demo)
    open(t + '/demo.sh', 'w').write(DEMO % flags)
    os.chmod(t + '/demo.sh', 0o755)
    base = sh('bash %s/demo.sh' % t, cwd='/repo')
    bad = sh('bash %s/demo.sh' % t, cwd=r)
    res = 'demo base %d patched %d' % (base.returncode, bad.returncode)
    if base.returncode != 0 or bad.returncode in (0, 2): 
        shutil.rmtree(t); return id, 'REJECT ' + res + (base.stderr + bad.stderr)[-1500:]
    b = sh('bash %s/../build.sh' % r)
    if b.returncode: shutil.rmtree(t); return id, 'REJECT build: ' + b.stdout[-600:] + b.stderr[-600:]
    o = os.path.dirname(r) + '/out.json'
    sh('bash %s/../test.sh %s' % (r, o))
    q = json.load(open(o))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    txt = json.dumps(q)
    passed = q.get('passed', [])
    miss = [x for x in stable if x not in passed]
    if miss: shutil.rmtree(t); return id, 'REJECT tests fail: %s' % miss
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    shutil.copy(t + '/demo.cc', d); shutil.copy(t + '/demo.sh', d)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(t)
    return id, 'OK ' + res
L = []
def S(id, prop, file, edits, demo, needs, breaks, flags='-DTOON_CHECK_BOUNDS'): L.append((id, prop, file, edits, demo, needs, breaks, flags))
if __name__ == '__main__':
    exec(open(sys.argv[1]).read())
    only = sys.argv[2:]
    from multiprocessing import Pool, Queue
    todo = [x for x in L if not only or x[0] in only]
    n = 6
    groups = [[(x, i) for x in todo[i::n]] for i in range(n)]
    def grp(g): return [one(a) for a in g]
    with Pool(n) as p:
        for rs in p.imap_unordered(grp, [g for g in groups if g]):
            for r in rs: print(*r, flush=True)
