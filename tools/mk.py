import sys,os,subprocess as sp,json,shutil
def mk(id,prop,needs,breaks,edits,demo,tmpl="/tmp/demo_tmpl.sh"):
    W="/tmp/wt"; sp.check_call("git -C %s fetch -q && git -C %s reset -q --hard origin/HEAD && git -C %s clean -qfd"%(W,W,W),shell=True)
    for f,a,b in edits:
        p=W+"/"+f; s=open(p).read(); assert s.count(a)==1,(id,f,s.count(a),a); open(p,"w").write(s.replace(a,b))
    d="/verif/seeded/"+id; os.makedirs(d,exist_ok=True)
    open(d+"/patch.diff","w").write(sp.check_output(["git","-C",W,"diff"],text=True))
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    open(d+"/demo.cpp","w").write(demo); shutil.copy(tmpl,d+"/demo.sh"); os.chmod(d+"/demo.sh",0o755)
    sp.check_call("git -C %s checkout -q -- ."%W,shell=True)
