#!/usr/bin/env python3
"""check.py <property> <quick|thorough> : builds the simulator binary for the property from /repo's working tree,
runs seeded simulations on all cores, reports violations with a minimised replay file, writes evidence/<property>.json."""
import os,sys,json,time,subprocess,re,hashlib,shutil,signal
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,os.path.join(HERE,"sim"))
import build as B
from props import PROPS,REAL,STUB
def die(msg,rc=2): print("ERROR: "+msg); sys.exit(rc)
def known_findings(prop):
    out=[]
    for l in open(os.path.join(HERE,"known_findings.txt")):
        m=re.match(r'finding: property=(\S+) class=(\S+) match="([^"]*)" (.*)',l.strip())
        if m and m.group(1)==prop: out.append((m.group(2),m.group(3),m.group(4)))
    return out
def symbolise(exe,path):
    try:
        txt=open(path).read(); out=[]
        for m in re.finditer(r"^(stack\d)((?: [0-9a-f]+)*)$",txt,re.M):
            a=[x for x in m.group(2).split() if len(x)<8]
            if not a: continue
            r=subprocess.run(["addr2line","-Cfpse",exe]+a,stdout=subprocess.PIPE,text=True).stdout
            out.append(m.group(1)+":\n"+"".join("    "+l+"\n" for l in r.splitlines()))
        if out: open(path,"a").write("\nsymbols\n"+"".join(out))
    except Exception: pass
def main():
    if len(sys.argv)<3: die("usage: check.py <property> <quick|thorough>")
    prop,tier=sys.argv[1],sys.argv[2]; seed=int(os.environ.get("VERIF_SEED","1") or "1"); cfg=PROPS[prop]; t0=time.time()
    secs=float(os.environ.get("SIM_SECONDS",cfg["quick"] if tier=="quick" else cfg["thorough"])); nw=B.JOBS
    try: exe=B.build(cfg["target"])
    except Exception as e: die("build failed: %s"%e)
    tb=time.time()-t0
    known=known_findings(prop); karg=";;".join("%s|%s"%(c,m) for c,m,_ in known)
    base=int(hashlib.sha256(("%d/%s"%(seed,prop)).encode()).hexdigest()[:12],16)|1
    work=os.path.join(B.BUILD,"run_%s_%d"%(prop,os.getpid())); os.makedirs(work,exist_ok=True); procs=[]
    env=dict(os.environ); env.pop("SIM_TRACE",None)
    for w in range(nw):
        o=os.path.join(work,"o%d.json"%w); r=os.path.join(work,"r%d.replay"%w)
        cmd=[exe,"--prop",prop,"--seed",str(base+w),"--stride",str(nw),"--count","100000000","--time",str(secs),"--out",o,"--replay-out",r,"--det","64","--minbudget","40"]
        if karg: cmd+=["--known",karg]
        procs.append((subprocess.Popen(cmd,env=env,stdin=subprocess.DEVNULL,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,start_new_session=True),o,r))
    res=[None]*nw; viol=None; bad=[]; deadline=time.time()+secs+200
    while any(x is None for x in res) and time.time()<deadline:
        for i,(p,o,r) in enumerate(procs):
            if res[i] is None and p.poll() is not None:
                try: res[i]=json.load(open(o))
                except Exception: res[i]={}; bad.append("worker %d ended with code %s"%(i,p.returncode))
                if res[i].get("violations") and viol is None: viol=(res[i]["violation"],r,i); break
        if viol: break
        time.sleep(0.05)
    for p,_,_ in procs:
        if p.poll() is None:
            try: os.killpg(p.pid,signal.SIGKILL)
            except Exception: pass
            p.wait()
            if not viol: bad.append("worker timed out")
    rs=[r for r in res if r]
    def tot(k): return sum(r.get(k,0) for r in rs)
    def merge(k):
        d={}
        for r in rs:
            for a,b in r.get(k,{}).items(): d[a]=d.get(a,0)+b
        return d
    faults={}
    for r in rs:
        for k,(n,c) in r.get("faults",{}).items():
            if n: f=faults.setdefault(k,{"injected":0,"runs_with":0}); f["injected"]+=n; f["runs_with"]+=c
    il=set(); samples=[]
    for r in rs: il.update(r.get("il",[])); samples+=r.get("samples",[])
    runs=tot("runs"); el=max([r.get("elapsed",0) for r in rs] or [0]) or 1e-9; kn=merge("known"); rc=0; lines=[]
    replay=None
    if viol:
        v,rp,w=viol; d=os.path.join(HERE,"replays"); os.makedirs(d,exist_ok=True); replay=os.path.join(d,"%s_%s_%d.replay"%(prop,v["class"],v["seed"])); shutil.copy(rp,replay)
        ok=0; near=0
        for _ in range(2):
            c=subprocess.run([exe,"--replay",replay,"--out",os.path.join(work,"rep.txt")],stdin=subprocess.DEVNULL,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,env=env).returncode; ok+=c==1; near+=c in(1,4)
        symbolise(exe,replay)
        if near==2 and ok<2: lines.append("note: the replay reaches the same violation with another trace hash (%d of 2 exact)"%ok)
        if near==2:
            rc=1; lines+=["%s: %s in workload %s, seed %d"%(prop,v["class"],v["harness"],v["seed"]),"  "+v["message"],"  %d decisions (minimised from %d); replay: %s --replay %s"%(v["events_after"],v["events_before"],exe,replay),"VIOLATION property=%s replay=%s"%(prop,replay)]
        else: rc=2; bad.append("replay file did not reproduce the violation in a fresh process (%d of 2)"%ok)
    if not viol:
        if tot("det_bad"): 
            msgs=[r["inc_msg"] for r in rs if r.get("det_bad")]
            if any("did not reproduce" in m for m in msgs): rc=2; bad.append("; ".join(msgs))
        if bad: rc=2
        if runs==0 or tot("inconclusive")*2>runs: rc=2; bad.append("too many inconclusive runs: "+"; ".join(sorted(set(r.get("inc_msg","") for r in rs)))[:600])
    ev={"property":prop,"tier":tier,"seed":seed,"level":cfg.get("level","exploration"),"wall_s":round(time.time()-t0,2),"violations":1 if rc==1 else 0,
     "coverage":{"evaluations":runs,"distinct_nontrivial":len(il),
      "rule":"one evaluation = one simulated execution (seed -> workload, schedule, faults) of the real code in a forked process; counted as distinct and non-trivial by the hash of its complete sequence of synchronisation, I/O and OpenMP events with the thread that executed each (runs that repeat an interleaving hash are not counted again). "+cfg["rule"],
      "samples":samples[:6],"runs_per_hour":int(runs/el*3600),"seeds_per_hour":int(runs/el*3600),"seed_base":base,"workers":nw,"explore_s":round(el,1),"build_s":round(tb,1),
      "passed":tot("ok"),"inconclusive":tot("inconclusive"),"inconclusive_reason":sorted(set(r.get("inc_msg","") for r in rs if r.get("inc_msg")))[:3],
      "simulated_seconds":round(tot("sim_ns")*1e-9,3),"scheduling_steps":tot("steps"),"sync_operations":tot("syncops"),"context_switches":tot("switches"),"preemptions":tot("preempts"),
      "faults":faults,"crash_restarts":tot("crash_restarts"),"workloads":merge("harnesses"),"rare_conditions_reached":merge("probes"),
      "determinism_reruns":tot("det_runs"),"determinism_mismatches":tot("det_bad"),"known_findings_seen":kn,
      "real_components":REAL+cfg["real"],"stub_components":STUB+cfg.get("stub",[])},
     "assumptions":cfg.get("assumptions",[])+["sequentially consistent interleavings at instrumented accesses and synchronisation calls; weaker orderings are covered only through the happens-before race detector","libstdc++, OpenCV and libm run uninstrumented (their buffers are still covered by the checked heap's guard zones, and memcpy/memset by address checks)"]}
    os.makedirs(os.path.join(HERE,"evidence"),exist_ok=True); json.dump(ev,open(os.path.join(HERE,"evidence",prop+".json"),"w"),indent=1)
    shutil.rmtree(work,ignore_errors=True)
    print("%s %s seed=%d: %d runs (%d distinct interleavings) in %.0f s (build %.0f s), %.1f simulated s, faults %s"%(prop,tier,seed,runs,len(il),el,tb,tot("sim_ns")*1e-9,{k:v["injected"] for k,v in faults.items()}))
    for c,m,d in known: print("KNOWN-FINDING: property=%s %s"%(prop,d))
    for l in lines: print(l)
    if rc==2: print("ERROR: "+"; ".join(bad))
    sys.exit(rc)
main()
