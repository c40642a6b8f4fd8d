#!/usr/bin/env python3
"""Development helper: define planted bugs as text edits and lay out seeded/<id>/."""
import subprocess, os, sys, json
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/bugwork"
def seed(id, prop, pkg, edits, demo, needs, breaks):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    subprocess.run(["git","-C",W,"checkout","-q","--","bip32","bip39","bip44","util"],check=True)
    for f, old, new in edits:
        p = W + "/" + f
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p,"w").write(s.replace(old,new))
    open("/tmp/demo.go","w").write(demo)
    subprocess.run([root+"/tools/newseed.sh",id,prop,pkg],check=True,env=dict(os.environ,NEEDS=needs,BREAKS=breaks))
