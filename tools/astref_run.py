#!/usr/bin/env python3
"""Development helper: whole-package behaviour-preserving rewrites; every check has to stay quiet.
astref_run.py [TRANSFORM[+TRANSFORM]...] [Cxx...]   env J workers, BC analyser, FN one function"""
import subprocess, os, sys, threading, queue
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BC = os.environ.get('BC', '/tmp/bc')
env = dict(os.environ, PATH='/opt/veriftools/go1.23.12/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off')
if not os.path.exists('/tmp/astref'):
    subprocess.run(['go', 'build', '-o', '/tmp/astref', '.'], cwd=root + '/tools/astref', env=dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local'), check=True)
names = [a for a in sys.argv[1:] if not (a[0] == 'C' and a[1:].isdigit())]
props = [a for a in sys.argv[1:] if a not in names] or ['all']
if not names: names = sorted(subprocess.run(['/tmp/astref', 'list', ''], capture_output=True, text=True).stdout.split())
q = queue.Queue()
for n in names: q.put(n)
def one(i, n):
    w = '/tmp/ar_%d' % i
    subprocess.run(['rm', '-rf', w]); subprocess.run(['cp', '-a', '/repo', w], check=True)
    for t in n.split('+'):
        r = subprocess.run(['/tmp/astref', w, t] + ([os.environ['FN']] if 'FN' in os.environ else []), capture_output=True, text=True, env=env)
        if r.returncode: return 'ASTREF ' + (r.stdout + r.stderr)[:600]
    b = subprocess.run(['go', 'test', '-vet=off', '-count=1', './bip32/...', './bip39/...', './bip44/...', './util/...'], cwd=w, env=env, capture_output=True, text=True, errors='replace')
    if b.returncode: return 'BUILD/TEST ' + (b.stdout + b.stderr)[:900]
    o = subprocess.run(['bash', '-c', 'ulimit -v 14000000; timeout 1500 %s -repo %s -prop %s -out %s -known %s/known-findings.txt' % (BC, w, ','.join(props), w + '.ev', root)], capture_output=True, text=True, errors='replace')
    ls = o.stdout.splitlines()
    bad = [l for l in ls if not l.startswith(('ok ', 'KNOWN-FINDING'))]
    okc = sum(l.startswith('ok ') for l in ls)
    if not bad and o.returncode == 0: return 'quiet (%d)' % okc
    return 'ALARM ok %d rc %d\n' % (okc, o.returncode) + '\n'.join('    ' + l[:int(os.environ.get('W', '260'))] for l in bad[:int(os.environ.get('N', '40'))]) + o.stderr[:300]
def worker(i):
    while True:
        try: n = q.get_nowait()
        except queue.Empty: return
        print(n + ': ' + one(i, n), flush=True)
ts = [threading.Thread(target=worker, args=(i,)) for i in range(int(os.environ.get('J', '3')))]
[t.start() for t in ts]; [t.join() for t in ts]
