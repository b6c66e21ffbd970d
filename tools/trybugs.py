"""development tool: which checks catch which planted bugs.  usage: trybugs.py [seed-id ...]"""
import sys, os, subprocess, json, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = V + '/seeded/' + i
    p = json.load(open(d + '/meta.json'))['property']
    t = tempfile.mkdtemp(prefix='bug-')
    subprocess.run('cp -a /repo/. %s/ && git -C %s apply %s/patch.diff' % (t, t, d), shell=True, check=True)
    t0 = time.time()
    env = dict(os.environ, TOON_REPO=t)
    env.pop('TOONVC_NONATIVE', None)
    r = subprocess.run([V + '/check', p], capture_output=True, text=True, env=env, cwd=V)
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    print('%-34s %s rc=%d %4.0fs %s' % (i, p, r.returncode, time.time() - t0, (v[0][-60:] if v else 'MISSED')), flush=True)
    shutil.rmtree(t)
