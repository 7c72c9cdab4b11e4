#!/usr/bin/env python3
"""Turn planted bugs (tools/seeds/*.py) into /verif/seeded/<id>/, after confirming each one.

A spec is a list SEEDS of dicts: id, property, needs, breaks, edits [(file, old, new)...],
demo (Nujel source) and expect (its output).  A demo may also be a shell script (sh)."""
import sys, os, subprocess, json, shutil, glob, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
DEMO = '''#!/bin/bash
# Runs demo.nuj with the interpreter built in the current directory and compares its output
here=$(cd "$(dirname "$0")" && pwd)
nujel=$PWD/future-nujel
scratch=$(mktemp -d) || exit 1
trap 'rm -rf "$scratch"' EXIT
cp "$here/demo.nuj" "$scratch/demo.nuj"
cd "$scratch" || exit 1
timeout 120 "$nujel" demo.nuj >out 2>&1
if [ "$(tr -d "\\r" <out)" = "$(cat "$here/expected")" ]; then exit 0; fi
echo "unexpected output:"; head -c 400 out
exit 1
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def build_and_test():
    r = sh('bash /opt/vp/build.sh')
    if r.returncode: return 'build: ' + (r.stdout + r.stderr)[-600:]
    sh('bash /opt/vp/test.sh /tmp/seed-o.json')
    o = json.load(open('/tmp/seed-o.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base['stable']
    missing = [n for n in names if n not in set(o['passed'])] if isinstance(names, list) else []
    if len(o['passed']) < 1679 or missing: return 'tests: %d pass, %s' % (len(o['passed']), (missing or o['failed'])[:4])

def main():
    want = set(sys.argv[1:])
    seeds = []
    for f in sorted(glob.glob(V + '/tools/seeds/*.py')): seeds += runpy.run_path(f)['SEEDS']
    ids = [s['id'] for s in seeds]; assert len(ids) == len(set(ids)), 'duplicate ids'
    assert not sh('git -C %s status --porcelain' % R).stdout, 'repo not clean'
    for s in seeds:
        d = '%s/seeded/%s' % (V, s['id'])
        if want and s['id'] not in want: continue
        if not want and os.path.exists(d + '/meta.json'): continue
        os.makedirs(d, exist_ok=True)
        ok = False
        try:
            if 'sh' in s: open(d + '/demo.sh', 'w').write(s['sh'])
            else:
                open(d + '/demo.sh', 'w').write(DEMO)
                open(d + '/demo.nuj', 'w').write(s['demo']); open(d + '/expected', 'w').write(s['expect'])
            for n, c in s.get('files', {}).items(): open(d + '/' + n, 'w').write(c)
            if not hasattr(main, 'built'):
                print('base', build_and_test() or 'ok'); main.built = 1
            sh('bash /opt/vp/build.sh')
            r = sh('bash %s/demo.sh' % d, cwd=R)
            if r.returncode: print(s['id'], 'DEMO FAILS ON BASE', r.stdout[:400], r.stderr[-200:]); continue
            for f, o, n in s['edits']:
                t = open(R + '/' + f).read()
                assert t.count(o) == 1, (s['id'], f, t.count(o), o)
                b = t[:t.index(o)].count('\n'); m = o.count('\n') + 1
                open(R + '/' + f, 'w').write(t.replace(o, n))
            patch = sh('git -C %s diff' % R).stdout
            # changed lines have to belong to the original repository
            for f in {e[0] for e in s['edits']}:
                for h in sh('git -C %s diff -U0 -- %s' % (R, f)).stdout.splitlines():
                    if h.startswith('@@'):
                        a = h.split()[1][1:].split(','); st = int(a[0]); n = int(a[1]) if len(a) > 1 else 1
                        if n:
                            bl = sh('git -C %s blame -s -L%d,+%d HEAD -- %s' % (R, st, n, f)).stdout
                            own = [l for l in bl.splitlines() if not l.startswith('^')]
                            if own: print(s['id'], 'NOTE: changes own lines', own[0])
            e = build_and_test()
            if e: print(s['id'], 'REJECTED', e); continue
            r = sh('bash %s/demo.sh' % d, cwd=R)
            if r.returncode == 0: print(s['id'], 'DEMO DOES NOT FAIL'); continue
            open(d + '/patch.diff', 'w').write(patch)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            ok = True
            print(s['id'], 'ok:', r.stdout.replace('\n', ' | ')[:300])
        except AssertionError as e:
            print('ASSERT', e)
        finally:
            sh('git -C %s checkout -- .' % R)
            if not ok: shutil.rmtree(d)
    print('restored', build_and_test() or 'ok')
main()
