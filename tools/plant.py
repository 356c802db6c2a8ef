#!/usr/bin/env python3
"""tools/plant.py [--notest] [--nobuild] id... : for each planted bug: apply to /repo, build, run stable tests, demo (must fail), its check (should report), revert. Development helper, not a check."""
import sys,os,json,subprocess as sp,shutil,tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); a=sys.argv[1:]; notest="--notest" in a; nobuild="--nobuild" in a; ids=[x for x in a if not x.startswith("--")] or sorted(os.listdir(V+"/seeded"))
def sh(c,**k): return sp.run(c,shell=True,stdout=sp.PIPE,stderr=sp.STDOUT,text=True,**k)
def demo(i):
    d=tempfile.mkdtemp(); t=d+"/x"; shutil.copytree(V+"/seeded/"+i,t,ignore=shutil.ignore_patterns("*.diff","meta.json")); 
    try: r=sh("timeout 300 bash %s/demo.sh"%t,cwd="/repo"); return r.returncode,r.stdout[-600:]
    finally: shutil.rmtree(d)
if not nobuild:
    assert sh("bash /opt/vp/build.sh").returncode==0
    for i in ids: rc,o=demo(i); print(i,"demo clean:",rc,o if rc else ""); sys.stdout.flush()
for i in ids:
    m=json.load(open(V+"/seeded/%s/meta.json"%i)); print("==",i,m["property"]); sys.stdout.flush()
    r=sh("git -C /repo apply %s/seeded/%s/patch.diff"%(V,i))
    if r.returncode: print("  patch does not apply",r.stdout); continue
    try:
        if not nobuild:
            r=sh("bash /opt/vp/build.sh"); print("  build",r.returncode, r.stdout[-800:] if r.returncode else "")
            if not notest:
                sh("bash /opt/vp/test.sh /tmp/plant_t.json"); t=set(json.load(open("/tmp/plant_t.json"))["passed"]); b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; print("  stable tests failing:",[x for x in b if x not in t][:5])
            rc,o=demo(i); print("  demo patched:",rc,"" if rc else "NOT DETECTED BY DEMO",o.strip().splitlines()[-1:] )
        r=sh("python3 check.py %s quick"%m["property"],cwd=V); print("  check rc=%d"%r.returncode,"\n    ".join(r.stdout.strip().splitlines()[-5:])); sys.stdout.flush()
    finally: sh("git -C /repo checkout -- .")
if not nobuild: sh("bash /opt/vp/build.sh")
