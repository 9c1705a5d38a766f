#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] : decides one property by deterministic simulation.
   check.py --replay FILE            : re-executes a recorded violation and verifies that it is the same.
   check.py --build                  : builds the simulator only."""
import json, os, re, subprocess, sys, threading, time, hashlib
HERE=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get("VERIF_REPO","/repo")
BUILD=os.environ.get("VERIF_BUILD",os.path.join(HERE,"build")); BIN=os.path.join(BUILD,"simbin")
NW=int(os.environ.get("VERIF_WORKERS","8"))
from jobs import JOBS, META
sys.stdout.reconfigure(line_buffering=True)

def build():
    """Rebuilds /repo's current tree, instrumented, with the simulator. Returns None or an error text."""
    t=time.time()
    p=subprocess.run(["bash",os.path.join(HERE,"sim/build.sh"),REPO,BUILD],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if p.returncode: return p.stdout[-3000:]
    print(f"built {BIN} from {REPO} in {time.time()-t:.1f}s"); return None

def args_of(job,**kw):
    a=[BIN,job["h"],"profile="+job.get("profile","default")]
    for k,v in job.get("opts",{}).items(): a.append(f"{k}={v}")
    for k,v in kw.items(): a.append(f"{k}={v}")
    return a

def norm(msg):
    m=re.sub(r"0x[0-9a-f]+","X",msg); m=re.sub(r"\d+","N",m); return m[:160]

class Known:
    def __init__(self):
        self.entries=json.load(open(os.path.join(HERE,"known_findings.json")))["findings"]
    def open_for(self,prop): return [e for e in self.entries if e["status"]=="open" and prop in e["properties"]]
    def match(self,prop,f,job):
        stack=" ".join(f.get("stack",[]))
        for e in self.open_for(prop):
            s=e["signature"]
            if s.get("profile") and s["profile"]!=job.get("profile","default"): continue
            if s.get("cls") and not re.search(s["cls"],f["cls"]): continue
            if s.get("msg") and not re.search(s["msg"],f["msg"],re.S): continue
            if s.get("stack") and not re.search(s["stack"],stack): continue
            return e
        return None

def one_run(job,seed,extra=None,timeout=400):
    """one seed in a fresh process -> (fail dict or None, run dict)"""
    ex=dict(extra or {}); ex.update(first=seed,n=1)
    try: p=subprocess.run(args_of(job,**ex),stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,timeout=timeout)
    except subprocess.TimeoutExpired: return None,None
    fail=run=None
    for l in p.stdout.splitlines():
        try: d=json.loads(l)
        except ValueError: continue
        if d["t"]=="fail": fail=d
        elif d["t"]=="run": run=d
    return fail,run

class Search:
    def __init__(s,prop,jobs,base,tcap,known,thorough):
        s.prop=prop; s.jobs=jobs; s.base=base; s.tcap=tcap; s.known=known; s.thorough=thorough
        s.stop=threading.Event(); s.lock=threading.Lock(); s.viol=None; s.runs=[]; s.sums=[]; s.kf={}; s.err=[]; s.procs=set(); s.unconfirmed=[]
    def worker(s,job,w,n,t):
        # each job explores its own seed range
        a=args_of(job,first=s.base+job["off"]+w,stride=NW,n=n,time=t,keepgoing=1,sites=1,thorough=int(s.thorough))
        p=subprocess.Popen(a,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
        with s.lock: s.procs.add(p)
        got=False
        for l in p.stdout:
            try: d=json.loads(l)
            except ValueError: continue
            if d["t"]=="run":
                with s.lock: s.runs.append((d["hash"],d["state"],d["ops"],d["steps"],d["seed"],job["name"],d.get("sw",0),d.get("incon",0)))
            elif d["t"]=="sum":
                got=True
                with s.lock: s.sums.append((job["name"],d))
            elif d["t"]=="fail":
                e=s.known.match(s.prop,d,job)
                with s.lock:
                    if e: s.kf.setdefault(e["id"],0); s.kf[e["id"]]+=1
                    elif s.viol is None: s.viol=(job,d); s.stop.set()
                if s.stop.is_set(): break
        if s.stop.is_set(): p.kill()
        err=p.stderr.read() if not s.stop.is_set() else ""
        p.wait()
        with s.lock: s.procs.discard(p)
        if not got and not s.stop.is_set(): s.err.append(f"worker of {job['name']} ended with {p.returncode}: {err[-400:]}")
    def run(s):
        t0=time.time(); tot=sum(j["n"] for j in s.jobs) or 1
        for j in s.jobs:
            if s.stop.is_set(): break
            share=max(5,s.tcap*j.get("share",j["n"]/tot)); n=(j["n"]+NW-1)//NW
            th=[threading.Thread(target=s.worker,args=(j,w,n,share)) for w in range(NW)]
            for t in th: t.start()
            while any(t.is_alive() for t in th):
                if s.stop.wait(0.1):
                    with s.lock:
                        for p in list(s.procs): p.kill()
                    break
            for t in th: t.join()
        s.wall=time.time()-t0

def minimise(job,seed,f,budget):
    """shrinks the number of threads, operations, faults and scheduling decisions while the failure class stays"""
    t0=time.time(); best={}; bf=f; thor={}
    def tryx(x):
        if time.time()-t0>budget: return None
        g,_=one_run(job,seed,x,timeout=120)
        return g if g and g["cls"]==f["cls"] and norm(g["msg"])[:40]==norm(f["msg"])[:40] else None
    def step(k,v):
        nonlocal best,bf
        x=dict(best); x[k]=v; g=tryx(x)
        if g: best=x; bf=g; return True
        return False
    if not step("nofaults",1):
        nf=len(f.get("faults",[])); lo,hi=0,nf
        while lo<hi and time.time()-t0<budget:
            mid=(lo+hi)//2
            if step("faultlimit",mid): hi=mid
            else: lo=mid+1
    for t in (1,2,3,4): 
        if step("maxthreads",t): break
    for o in (10,30,100,200,400,800,1600):
        if step("maxops",o): break
    lo,hi=1,bf.get("ndec",0)
    for _ in range(22):
        if lo>=hi or time.time()-t0>budget: break
        mid=(lo+hi)//2
        if step("declimit",mid): hi=min(mid,hi)
        else: lo=mid+1
    return best,bf

def write_replay(prop,job,seed,orig,extra,f,tier,thorough):
    d=os.path.join(HERE,"replays"); os.makedirs(d,exist_ok=True)
    ex=dict(extra); 
    if thorough: ex["thorough"]=1
    sched=os.path.join(BUILD,"sched.tmp"); one_run(job,seed,dict(ex,decout=sched)); st=""
    try: st=open(sched).read(400000); os.unlink(sched)
    except OSError: pass
    tag=hashlib.sha1(json.dumps([prop,job["name"],seed,ex],sort_keys=True).encode()).hexdigest()[:10]
    path=os.path.join(d,f"{prop}-{tag}.json")
    json.dump(dict(property=prop,tier=tier,harness=job["h"],profile=job.get("profile","default"),opts=job.get("opts",{}),seed=seed,minimised=ex,
        expect=dict(cls=f["cls"],hash=f["hash"],msg=f["msg"]),original=dict(cls=orig["cls"],hash=orig["hash"],msg=orig["msg"],decisions=orig["ndec"],faults=len(orig["faults"])),
        faults=f["faults"],stack=f.get("stack",[]),decisions=f["ndec"],schedule=st,
        replay_cmd=f"python3 {HERE}/check.py --replay {path}"),open(path,"w"),indent=1)
    return path

def replay(path):
    r=json.load(open(path)); e=build()
    if e: print("BUILD FAILED\n"+e); return 2
    job=dict(h=r["harness"],profile=r["profile"],opts=r["opts"],name="replay")
    f,run=one_run(job,r["seed"],r["minimised"])
    if not f: print(f"not reproduced: the run of seed {r['seed']} passes on this tree"); return 0
    print(f"{f['cls']}: {f['msg']}"); [print("   at",x) for x in f.get("stack",[])]
    same=f["hash"]==r["expect"]["hash"] and f["cls"]==r["expect"]["cls"]
    print("EXACT reproduction" if same else "fails, but not identically (the tree differs from the one it was recorded on?)")
    print(f"VIOLATION property={r['property']} replay={path}"); return 1

def main():
    if len(sys.argv)>1 and sys.argv[1]=="--replay": return replay(sys.argv[2])
    if len(sys.argv)>1 and sys.argv[1]=="--build":
        e=build(); 
        if e: print(e); return 2
        return 0
    prop=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get("VERIF_TIER","quick")
    thorough=tier=="thorough"; seed=int(os.environ.get("VERIF_SEED","1")); t0=time.time()
    e=build()
    if e: print("cannot build the tree under test:\n"+e); return 2
    known=Known(); base=seed*10_000_000
    jobs=[]
    scale=float(os.environ.get("VERIF_SCALE","1"))
    for i,j in enumerate(JOBS[prop]):
        j=dict(j); j["off"]=i*1_000_000; j["n"]=int((j["n"]*(40 if thorough else 1))*scale); j.setdefault("name",j["h"]+"/"+j.get("profile","default")); jobs.append(j)
    tcap=(3600 if thorough else 300)*max(scale,0.2)
    s=Search(prop,jobs,base,tcap,known,thorough); s.run()
    # every listed open finding of this property is demonstrated again
    for k in known.open_for(prop):
        if "demo" not in k: continue
        dj=dict(h=k["demo"]["harness"],profile=k["demo"].get("profile","default"),opts=k["demo"].get("opts",{}),name="demo")
        f=m=None
        for ds in k["demo"]["seeds"]:
            g,_=one_run(dj,ds)
            if not g: continue
            n=known.match(prop,g,dj)
            if f is None or n is None or n["id"]==k["id"]: f,m=g,n
            if m is None or m["id"]==k["id"]: break   # an unlisted failure, or this finding; another listed finding: next seed
        if f and m and m["id"]==k["id"]: print(f"KNOWN-FINDING: property={prop} {k['what']} [{k['id']}: {f['cls']}]")
        elif f and not m and s.viol is None: s.viol=(dj,f)
        else: print(f"note: known finding {k['id']} did not show in its demonstration on this tree")
    rc=0; path=None; det=None
    if not s.viol: det=recheck(s,jobs,thorough)
    if s.viol:
        job,f=s.viol; sd=f["seed"]; th={"thorough":1} if thorough and job["name"]!="demo" else {}
        g,_=one_run(job,sd,th)
        if g is None and f["cls"]=="timeout": g,_=one_run(job,sd,dict(th,timeout=240),timeout=500)
        if g is None:
            print(f"seed {sd} of {job['name']} failed once ({f['cls']}: {f['msg'][:300]}) and passed when repeated in a fresh process: not reported")
            s.unconfirmed.append(dict(seed=sd,cls=f["cls"],msg=f["msg"][:500]))
        else:
            exact=g["hash"]==f["hash"] and g["cls"]==f["cls"]
            best,bf=minimise(job,sd,g,30 if not thorough else 120)
            path=write_replay(prop,job,sd,g,best,bf,tier,thorough)
            print(f"seed {sd} of {job['name']}: {bf['cls']}: {bf['msg'][:1500]}")
            for x in bf.get("stack",[])[:12]: print("   at",x)
            print(f"rerun in a fresh process: {'identical' if exact else 'fails again, with a different trace'}; minimised to {best or 'nothing smaller'} ({len(bf['faults'])} injected faults)")
            rc=1
    write_evidence(prop,tier,seed,s,rc,time.time()-t0,jobs,det)
    if s.err: print("\n".join(s.err))
    tot=len(s.runs); print(f"{prop}: {tot} simulated runs in {s.wall:.1f}s, {len(set(r[0] for r in s.runs))} distinct schedules, {sum(r[7] for r in s.runs)} inconclusive")
    if rc: print(f"VIOLATION property={prop} replay={path}")
    elif s.err or tot==0: return 2
    return rc

def recheck(s,jobs,thorough):
    """a sample of the seeds again, each in a fresh process: the same seed must be the same execution"""
    k=16 if not thorough else 200; rs=s.runs[::max(1,len(s.runs)//k)][:k]; jn={j["name"]:j for j in jobs}; bad=[]
    from concurrent.futures import ThreadPoolExecutor
    def f(r):
        _,g=one_run(jn[r[5]],r[4],{"thorough":1} if thorough else {})
        if g is None or g["hash"]!=r[0]: bad.append(dict(job=r[5],seed=r[4]))
    with ThreadPoolExecutor(NW) as ex: list(ex.map(f,rs))
    if bad: print(f"note: {len(bad)} of {len(rs)} seeds gave another execution when repeated: {bad[:4]}")
    return dict(seeds_repeated_in_fresh_processes=len(rs),identical_executions=len(rs)-len(bad),different=bad)

def write_evidence(prop,tier,seed,s,rc,wall,jobs,det=None):
    runs=s.runs; faults={}; cov={}; steps=sw=sim=ops=chk=rd=wr=0; bits=0; ep=0
    for name,d in s.sums:
        for k,v in d["faults"].items(): faults[k]=faults.get(k,0)+v
        for k,v in d["cov"].items(): cov[k]=cov.get(k,0)+v
        steps+=d["steps"]; sw+=d["switches"]; sim+=d["simtime_ns"]; ops+=d["ops"]; chk+=d["checked"]; rd+=d["reads"]; wr+=d["writes"]; ep+=d["epochs"]
        if d.get("sites"): bits|=int(d["sites"],16)
    nt=[r for r in runs if r[2]>0 and r[6]>=10]
    m=META[prop]
    ev=dict(property=prop,tier=tier,seed=seed,level=m["level"],wall_s=round(wall,2),violations=1 if rc else 0,
      coverage=dict(evaluations=len(runs),distinct_nontrivial=len(set(r[0] for r in nt)),
        rule=m["rule"]+" One case is one seed: plan, configuration, operations, schedule and faults all derive from it. Distinct: different hash over every scheduling decision, I/O event and fault; non-trivial: at least one operation completed and at least ten context switches.",
        samples=[dict(seed=r[4],job=r[5],hash=r[0],state=r[1],operations=r[2],steps=r[3],switches=r[6]) for r in runs[:3]+runs[len(runs)//2:len(runs)//2+2]],
        jobs=[dict(name=j["name"],harness=j["h"],profile=j.get("profile"),opts=j.get("opts",{}),planned=j["n"],first_seed=s.base+j["off"],runs=sum(1 for r in runs if r[5]==j["name"])) for j in jobs],
        runs_per_hour=int(len(runs)/max(s.wall,0.1)*3600),operations_checked=ops,oracle_evaluations=chk,
        simulated_processes=ep,simulated_time_s=round(sim/1e9,3),steps=steps,context_switches=sw,device_reads=rd,device_writes=wr,
        faults_injected=faults,events=cov,distinct_shapes_reached=len(set(r[1] for r in runs)),
        distinct_preemption_site_pairs=bin(bits).count("1"),interleaving_measure="pairs (code address where a thread was switched out, code address at which the thread switched in had been stopped), hashed to 16 bits",
        determinism=det or {},inconclusive=sum(r[7] for r in runs),unconfirmed=s.unconfirmed,known_findings_hit=s.kf,
        real_components=m["real"],stub_components=m["stub"]),
      assumptions=m["assume"])
    os.makedirs(os.path.join(HERE,"evidence"),exist_ok=True)
    json.dump(ev,open(os.path.join(HERE,"evidence",prop+".json"),"w"),indent=1)

if __name__=="__main__": sys.exit(main())
