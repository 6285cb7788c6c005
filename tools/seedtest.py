#!/usr/bin/env python3
"""Confirms a planted bug without touching /repo: works on a copy mounted over /repo in a private namespace.
usage: seedtest.py ID [--no-tests] [--check C01,C02]   (uses /verif/seeded/ID; if edits.py lies in $SEEDS/ID.py, patch.diff is made from it first)"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/w/seedwork'
def ns(copy, *cmd, **k):
    return subprocess.run(['unshare', '-Urmn', 'bash', '-c', 'mount --bind "$0" /repo && ip link set lo up; cd /repo; exec "$@"', copy] + list(cmd), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    i = sys.argv[1]; d = os.path.join(V, 'seeded', i)
    tests = '--no-tests' not in sys.argv
    copy = os.path.join(W, i)
    shutil.rmtree(copy, ignore_errors=True); os.makedirs(W, exist_ok=True)
    subprocess.check_call(['cp', '-a', os.environ.get('SEED_REPO', '/repo'), copy])
    try:
        r = ns(copy, 'bash', '/opt/vp/build.sh')
        demo = os.path.join(W, 'demo-' + i); shutil.rmtree(demo, ignore_errors=True); shutil.copytree(d, demo)
        for f in ('patch.diff', 'meta.json'): os.path.exists(os.path.join(demo, f)) and os.remove(os.path.join(demo, f))
        try: r = ns(copy, 'bash', os.path.join(demo, 'demo.sh'), timeout=300); c0 = r.returncode; o0 = r.stdout[-300:]
        except subprocess.TimeoutExpired: c0 = 'timeout'; o0 = ''
        p = subprocess.run(['git', '-C', copy, 'apply', os.path.join(d, 'patch.diff')], stderr=subprocess.PIPE, text=True)
        if p.returncode: print(i, 'PATCH FAILS', p.stderr); return
        r = ns(copy, 'bash', '/opt/vp/build.sh')
        build = 'BUILD OK' in r.stdout
        if not build: print(r.stdout[-1500:])
        try: r = ns(copy, 'bash', os.path.join(demo, 'demo.sh'), timeout=300); c1 = r.returncode; o1 = r.stdout[-300:]
        except subprocess.TimeoutExpired: c1 = 'timeout'; o1 = ''
        miss = '-'
        if tests:
            out = os.path.join(W, i + '.json')
            ns(copy, 'bash', '/opt/vp/test.sh', out)
            t = json.load(open(out)); base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            miss = [x for x in base if x not in t['passed']]
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        res = {}
        for c in [prop] + (sys.argv[sys.argv.index('--check') + 1].split(',') if '--check' in sys.argv else []):
            e = dict(os.environ, VERIF_REPO=copy)
            r = subprocess.run([os.path.join(V, 'run.py'), c, 'quick'], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res[c] = (r.returncode, [l for l in r.stdout.splitlines() if l.startswith('#')][-1:])
        print('%s build=%s demo clean=%s patched=%s tests missing=%s\n   checks=%s' % (i, build, c0, c1, miss, res))
        if c0 != 0: print('   clean demo:', o0)
        if c1 == 0 or '-v' in sys.argv: print('   patched demo:', o1)
    finally:
        shutil.rmtree(copy, ignore_errors=True); shutil.rmtree(os.path.join(W, 'demo-' + i), ignore_errors=True)
main()
