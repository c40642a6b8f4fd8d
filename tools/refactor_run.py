#!/usr/bin/env python3
"""Development helper: apply behaviour-preserving edits to scratch copies of /repo, confirm that they
build and pass the tests, and list the checks that are not quiet on them."""
import subprocess, os, sys, json, queue, threading, shutil
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
 'bip32': 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C20 C24 C25 C26 C27 C28 C29 C30 C32 C37 C38 C40 C41 C42 C43'.split(),
 'bip39': 'C15 C16 C17 C18 C19 C20 C21 C22 C23 C28 C29 C30 C32 C41 C43'.split(),
 'util': 'C19 C23 C24 C25 C26 C27 C28 C29 C30 C32 C41 C42 C43'.split(),
 'bip44': 'C31 C28 C29 C32 C39'.split(),
}
have = set(os.environ.get('HAVE', 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C37 C38 C39 C40 C41 C42 C43').split())
ENV = dict(os.environ, PATH='/opt/veriftools/go1.23.12/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off')
BC = os.environ.get('BC', '/tmp/bc')
def run(w, r, only):
    name, edits = r
    saved = {}
    try:
        pkgs = set()
        for f, old, new in edits:
            p = w + '/' + f
            s = open(p).read(); saved.setdefault(p, s)
            if s.count(old) != 1: return name, 'EDIT %s: %d matches of %r' % (f, s.count(old), old[:60])
            open(p, 'w').write(s.replace(old, new)); pkgs.add(f.split('/')[0])
        b = subprocess.run(['go', 'test', '-vet=off', '-count=1', './bip32/...', './bip39/...', './bip44/...', './util/...'], cwd=w, env=ENV, capture_output=True, text=True, errors='replace')
        if b.returncode: return name, 'BUILD/TEST ' + (b.stdout + b.stderr)[:400]
        props = sorted(set(p for k in pkgs for p in PROPS[k]) & have)
        if only: props = [p for p in props if p in only]
        if not props: return name, 'quiet (none)'
        out = subprocess.run(['bash', '-c', 'ulimit -v 12000000; timeout 880 %s -repo %s -prop %s -out %s -known %s/known-findings.txt' % (BC, w, ','.join(props), w + '.ev', root)], capture_output=True, text=True, errors='replace')
        bad = [l for l in out.stdout.splitlines() if not l.startswith(('ok ', 'KNOWN-FINDING'))]
        okc = sum(l.startswith('ok ') for l in out.stdout.splitlines())
        if okc < len(props) or out.returncode:
            return name, 'ALARM ok %d of %d rc %d\n' % (okc, len(props), out.returncode) + '\n'.join('    ' + l[:int(os.environ.get('W','300'))] for l in bad[:int(os.environ.get('N','12'))]) + out.stderr[:300]
        return name, 'quiet'
    finally:
        for p, s in saved.items(): open(p, 'w').write(s)
def main(refs):
    args = sys.argv[1:]
    only = [a for a in args if a[0] == 'C' and a[1:].isdigit()]
    names = [a for a in args if a not in only]
    refs = [r for r in refs if not names or any(r[0].startswith(n) for n in names)]
    q = queue.Queue()
    for r in refs: q.put(r)
    def worker(i):
        w = os.environ.get('WD', '/tmp/rf') + '_%d' % i
        if not os.path.exists(w): subprocess.run(['cp', '-a', '/repo', w], check=True)
        subprocess.run('git checkout -q -- bip32 bip39 bip44 util', shell=True, cwd=w)
        while True:
            try: r = q.get_nowait()
            except queue.Empty: return
            n, m = run(w, r, only)
            print(n + ': ' + m, flush=True)
    ts = [threading.Thread(target=worker, args=(i,)) for i in range(int(os.environ.get('J', '5')))]
    [t.start() for t in ts]; [t.join() for t in ts]
