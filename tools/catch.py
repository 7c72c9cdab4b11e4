#!/usr/bin/env python3
"""catch.py [ids...]: run the check of each planted bug against a copy of /repo containing it"""
import sys, os, subprocess, json, shutil, tempfile, glob, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def one(i):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    chk = [m['property']]
    d = tempfile.mkdtemp(prefix='catch-', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
        r = subprocess.run(['git', 'apply', '%s/seeded/%s/patch.diff' % (V, i)], cwd=d + '/repo', capture_output=True, text=True)
        if r.returncode: return i, 'PATCH DOES NOT APPLY ' + r.stderr[:200]
        env = dict(os.environ, NUJEL_REPO=d + '/repo', NUJEL_EVIDENCE=d); env.pop('NUJEL_VERIFY_CACHE', None)
        t = time.time()
        r = subprocess.run(['python3', '%s/checks/%s.py' % (V, chk[0])], env=env, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        k = [l for l in r.stdout.splitlines() if l.startswith('  [')]
        ok = r.returncode == 1 and any('property=%s ' % chk[0] in l for l in v)
        return i, ('caught' if ok else 'MISSED rc=%d %s' % (r.returncode, r.stderr[-200:])) + ' %ds  %s' % (time.time() - t, (k or [''])[0][:150])
    finally:
        shutil.rmtree(d)

ids = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(V + '/seeded/*/meta.json'))
out = {}
for i, r in map(one, ids):
    print(i, r, flush=True)
