#!/usr/bin/env python3
"""mutate_run.py BC OUT.jsonl [J] [file substring]: single-site mutants (tools/mutate) that compile and pass the
repository's tests, and which check, if any, catches each. Development only."""
import os, sys, subprocess, json, shutil, threading, queue, random
BC, OUT = sys.argv[1], sys.argv[2]
J = int(sys.argv[3]) if len(sys.argv) > 3 else 6
SUB = sys.argv[4] if len(sys.argv) > 4 else ""
here = os.path.dirname(os.path.abspath(__file__))
MU = "/tmp/mutate"
subprocess.run(["go", "build", "-o", MU, "."], cwd=here + "/mutate", check=True)
ENV = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", CGO_ENABLED="1")
ORDER = {"bip32/path.go": "C13,C14,C12", "bip32/reg": "C12,C11,C06,C29", "bip39": "C15,C16,C17,C18,C19,C20,C22,C21", "bip44": "C31", "util/util": "C23,C24,C25,C19", "util/key": "C27,C26", "bip32/bip32": "C08,C09,C07,C10,C05,C01,C02,C03,C04,C06,C20", "bip32/utils": "C10,C07,C09,C01,C02,C04,C27"}
ALL = ["C%02d" % i for i in range(1, 28)] + ["C32", "C37", "C38", "C39", "C40", "C42", "C43", "C41", "C30", "C29", "C28", "C31"]
muts = []
for l in subprocess.check_output([MU, "/repo"], text=True).splitlines():
    n, f, d = l.split(" ", 2)
    if SUB in f: muts.append((int(n), f, d))
done = set()
if os.path.exists(OUT):
    for l in open(OUT): done.add(json.loads(l)["n"])
muts = [m for m in muts if m[0] not in done]
random.seed(5); random.shuffle(muts)
q = queue.Queue()
for m in muts: q.put(m)
lock = threading.Lock()
def work(w):
    d = "/tmp/mu_%d" % w
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
    while True:
        try: n, f, desc = q.get_nowait()
        except queue.Empty: break
        file = f.split(":")[0]
        subprocess.run([MU, d, str(n), d], check=True)
        rec = {"n": n, "at": f, "desc": desc}
        try:
            r = subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout", "60s", "./bip32", "./bip39/...", "./bip44", "./util"], cwd=d, env=ENV, capture_output=True, text=True, timeout=300)
            if r.returncode:
                rec["res"] = "build" if "build failed" in r.stdout + r.stderr or "setup failed" in r.stdout else "tests"
            else:
                pr = []
                for k, v in ORDER.items():
                    if file.startswith(k): pr += v.split(",")
                pr += [p for p in ALL if p not in pr]
                b = subprocess.run(["bash", "-c", "ulimit -v 12000000; exec %s -first -repo %s -prop %s -out %s.ev -known /verif/known-findings.txt" % (BC, d, ",".join(pr), d)], capture_output=True, text=True, timeout=3000)
                v = [l.split()[1] for l in b.stdout.splitlines() if l.startswith("VIOLATION")]
                rec["res"] = "caught" if v else ("ok" if b.returncode == 0 else "rc%d" % b.returncode)
                rec["by"] = v; rec["why"] = b.stdout[-700:] if v else b.stderr[-300:]
        except subprocess.TimeoutExpired:
            rec["res"] = "timeout"
        shutil.copy("/repo/" + file, d + "/" + file)
        with lock:
            open(OUT, "a").write(json.dumps(rec) + "\n")
    shutil.rmtree(d, ignore_errors=True); shutil.rmtree(d + ".ev", ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(J)]
[t.start() for t in ts]; [t.join() for t in ts]
