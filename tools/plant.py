#!/usr/bin/env python3
"""Evaluates planted bugs: tools/plant.py [--no-test] [--no-check] ID...
Each is tried in a scratch copy of /repo that is bind-mounted over /repo in a private mount namespace:
build, stable tests, demo (must fail), the property's quick check (should fail).  The demo is also run on
the unpatched copy (must pass).  Developer tool; nothing registered in MANIFEST.json uses it."""
import sys, os, json, subprocess, shutil, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('PLANT_REPO', '/repo')      # the tree the copies are made of
def sh(cmd, t=1200, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=t, **k)
def inns(tree, cmd, t=1200):
    return sh("unshare -m bash -c 'mount --make-rprivate / && mount --bind %s /repo && cd /repo && %s'" % (tree, cmd), t)
def main():
    args = sys.argv[1:]; test = '--no-test' not in args; check = '--no-check' not in args
    allp = '--all-props' in args
    ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
    stable = json.load(open('/opt/vp/BASELINE.json'))
    rows = []
    for i in ids:
        d = V + '/seeded/' + i; meta = json.load(open(d + '/meta.json')); w = '/tmp/plant/' + i
        shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        sh('cp -a %s %s/repo' % (SRC, w)); sh('cp -a %s %s/demo' % (d, w)); sh('rm -f %s/demo/*.diff %s/demo/meta.json' % (w, w))
        tree = w + '/repo'; r = {'id': i, 'property': meta['property']}
        # lines touched must belong to the base commit
        b = inns(tree, 'bash /opt/vp/build.sh --main', 300)
        x = inns(tree, 'timeout 300 bash %s/demo/demo.sh' % w, 400); r['demo_clean'] = x.returncode
        if x.returncode: r['demo_clean_out'] = (x.stdout + x.stderr)[-400:]
        base = sh('git -C %s log --format=%%h --reverse | head -1' % SRC).stdout.strip()
        cur = None; own = []
        for l in open(d + '/patch.diff'):
            if l.startswith('--- '): cur = l.split()[1][2:]
            elif l.startswith('@@'): ln = int(l.split()[1][1:].split(',')[0])
            elif l.startswith('-') or l.startswith(' '):
                if l.startswith('-'):
                    bl = sh('git -C %s blame -s -l -L%d,%d HEAD -- %s' % (SRC, ln, ln, cur)).stdout
                    if not bl.lstrip('^').startswith(base): own.append((cur, ln))
                ln += 1
        if own: r['OWN_LINES'] = own
        a = sh('git -C %s apply --whitespace=nowarn %s/patch.diff' % (tree, d))
        if a.returncode: r['apply'] = a.stderr; rows.append(r); print(r); continue
        b = inns(tree, 'bash /opt/vp/build.sh', 300); r['build'] = b.returncode
        if b.returncode: print(b.stdout[-3000:], b.stderr[-1000:])
        x = inns(tree, 'timeout 300 bash %s/demo/demo.sh' % w, 400); r['demo_bug'] = x.returncode; r['demo_out'] = (x.stdout + x.stderr).strip()[-160:]
        if test:
            t = inns(tree, 'bash /opt/vp/test.sh %s/out.json' % w, 600)
            try:
                o = json.load(open(w + '/out.json')); bad = [s for s in stable['stable'] if s not in o.get('passed', [])] if 'stable' in stable else str(o)[:300]
            except Exception as e: bad = repr(e)
            r['tests_bad'] = bad
        if check:
            props = [meta['property']] if not allp else ['C%02d' % k for k in range(1, 24)]
            for p in props:
                env = dict(os.environ, SIM_REPO=tree)
                c = sh('cd %s && timeout 900 python3 check.py %s' % (V, p), 1000, env=env)
                vl = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
                r['check_' + p] = (c.returncode, vl[0][:120] if vl else c.stdout[-200:] + c.stderr[-200:])
        shutil.rmtree(w, ignore_errors=True)
        ok = r['demo_clean'] == 0 and r.get('demo_bug') and not r.get('tests_bad') and not own
        r['VERDICT'] = ('ok' if ok else 'BAD-PLANT') + ((' caught' if r['check_' + meta['property']][0] == 1 else ' MISSED') if check else '')
        rows.append(r); print(json.dumps(r, indent=None), flush=True)
    print('\n'.join('%-28s %-4s %s' % (r['id'], r['property'], r.get('VERDICT')) for r in rows))
main()
