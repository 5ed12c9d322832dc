#!/usr/bin/env python3
"""False-alarm test: tools/quiet.py [--props C01,C02] [ID...]: applies each behaviour-preserving rewrite of
/verif/quiet/*.diff to a scratch clone of /repo and runs the quick checks on it; each must stay quiet.
Developer tool; nothing registered in MANIFEST.json uses it."""
import sys, os, subprocess, shutil, glob, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GROUP = {'bar': 'C01 C02 C03 C04 C05 C06', 'mb': 'C07 C08 C09 C10 C11 C12 C13 C14', 'fmt': 'C04 C15 C16 C17 C18 C19 C20 C23',
         'opt': 'C15 C16 C18 C19 C23', 'tree': 'C16 C20 C21 C22 C23', 'yaml': 'C16 C20 C21 C22 C23', 'split': 'C15 C16 C18 C23'}
def main():
    args = sys.argv[1:]; props = None
    if args and args[0] == '--props': props = args[1].split(','); args = args[2:]
    bad = 0
    for d in sorted(glob.glob(V + '/quiet/*.diff')):
        i = os.path.basename(d)[:-5]
        if args and i not in args: continue
        t = tempfile.mkdtemp(prefix='quiet-'); tree = t + '/repo'
        try:
            subprocess.check_call(['git', 'clone', '-q', '/repo', tree])
            subprocess.check_call(['git', '-C', tree, 'apply', '--whitespace=nowarn', d])
            for p in props or GROUP[i.split('-')[0]].split():
                c = subprocess.run(['timeout', '900', 'python3', 'check.py', p], cwd=V, env=dict(os.environ, SIM_REPO=tree), capture_output=True, text=True)
                ok = c.returncode == 0
                bad += not ok
                print('%-22s %s %s' % (i, p, 'quiet' if ok else 'ALARM rc=%d\n%s%s' % (c.returncode, c.stdout[-1500:], c.stderr[-1500:])), flush=True)
        finally: shutil.rmtree(t)
    print('alarms: %d' % bad); return 1 if bad else 0
sys.exit(main())
