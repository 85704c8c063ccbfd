#!/usr/bin/env python3
"""Extract one unit from /repo and run Verus on it."""
import os,sys,re,json,subprocess,time,concurrent.futures as cf
HERE=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(HERE)
sys.path.insert(0,HERE)
import extract
VERUS=os.environ.get("VERUS") or ("verus" if subprocess.call("command -v verus >/dev/null",shell=True)==0 else "/opt/veriftools/bin/verus")
SEMANTIC=["postcondition not satisfied","precondition not satisfied","assertion failed","possible arithmetic underflow/overflow","possible division by zero","invariant not satisfied","decreases not satisfied","possible bit shift","unable to prove","index out of bounds","could not prove","loop invariant","type invariant","failed this"]
def verus(f,out,rl,extra=()):
    cmd=[VERUS,f,"--output-json","--time-expanded","--rlimit",rl,"--multiple-errors","3","--triggers-mode","silent",*extra]
    try:
        p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=int(os.environ.get("VRUN_TIMEOUT","600")),cwd=out)
        so,se,rc=p.stdout,p.stderr,p.returncode
    except subprocess.TimeoutExpired:
        so,se,rc="","error: TIMEOUT rlimit\n",124
    try: js=json.loads(so[so.index("{"):])
    except Exception: js={}
    return cmd,js,se,rc
def parse_errs(se,spans):
    errs=[]
    for blk in re.split(r"\n(?=error|warning|note)",se):
        m=re.match(r"error(\[E\d+\])?: (.*)",blk)
        if not m: continue
        msg=m.group(2)
        if msg.startswith("aborting due"): continue
        lm=re.search(r"--> .*?:(\d+):\d+",blk)
        ln=int(lm.group(1)) if lm else 0
        alls=[int(x) for x in re.findall(r"^\s*(\d+) [|/]",blk,re.M)]
        fn=None
        for a,b,info in spans:
            if any(a<=x<=b for x in alls): fn=info["fn"]
        for a,b,info in spans:
            if a<=ln<=b: fn=info["fn"]
        kind="semantic" if any(s in msg for s in SEMANTIC) and not m.group(1) else ("rlimit" if "rlimit" in msg.lower() or "resource limit" in msg.lower() else "tool")
        errs.append({"msg":msg,"kind":kind,"fn":fn,"line":ln,"text":blk.strip()[:2500],"alls":alls})
    return errs
def run_unit(name,repo="/repo",out=None,rlimit=None,extra=(),vacuity=False):
    t0=time.time()
    tpl=os.path.join(V,"contracts",name+".vrs")
    text,u,spans,lost=extract.process(repo,tpl,os.path.join(V,"shim"))
    out=out or os.path.join(V,".build","verus"); os.makedirs(out,exist_ok=True)
    f=os.path.join(out,name+".rs"); open(f,"w").write(text)
    m=re.search(r"//@rlimit (\d+)",text)
    rl=str(rlimit or (m.group(1) if m else 60))
    vac=None; vac_err=None
    with cf.ThreadPoolExecutor(2) as ex:
        a=ex.submit(verus,f,out,rl,extra)
        if vacuity and not lost:
            # the same unit with `assert(false)` at the head of every function:
            # each has to be refused, or its precondition (or an axiom) is contradictory
            vt,_,vs,_=extract.process(repo,tpl,os.path.join(V,"shim"),vac=True)
            vf=os.path.join(out,name+"_vacuity.rs"); open(vf,"w").write(vt)
            b=ex.submit(verus,vf,out,"20",())
        cmd,js,se,rc=a.result()
        if vacuity and not lost:
            _,_,vse,_=b.result()
            ok=set()
            ve=parse_errs(vse,vs)
            for a_,b_,info in vs:
                for e in ve:
                    if e["msg"].startswith("assertion failed") and (a_<=e["line"]<=b_): ok.add((a_,info["fn"]))
            tool=any(e["kind"]=="tool" for e in ve)
            if tool: vac_err=[e['msg'] for e in ve if e['kind']=='tool'][:3]
            vac=None if tool else [i["fn"] for a_,_,i in vs if (a_,i["fn"]) not in ok]
    vr=js.get("verification-results",{})
    errs=parse_errs(se,spans)
    smt=js.get("times-ms",{}).get("smt",{})
    res={"unit":name,"file":f,"cmd":" ".join(cmd),"rc":rc,"verified":vr.get("verified",0),"errors":vr.get("errors",0),
      "success":vr.get("success",False),
      "errs":errs,"lost":lost,"fns":[i for _,_,i in spans],"smt_ms":smt.get("smt-run") or smt.get("total"),"wall_s":round(time.time()-t0,2),
      "stderr":se,"vacuous":vac or [],"vac_err":vac_err,"vacuity_checked":(len(spans) if vac is not None else 0)}
    tb=[]
    for mm in re.finditer(r"assume_specification[^\n]*|#\[verifier::external_body\][^\n]*\n[^\n]*|\bassume\([^\n]*|\badmit\(\)|#\[verifier::external[^\n]*\n[^\n]*|uninterp spec fn[^\n]*",text):
        if "contract proved in unit" in text[max(0,mm.start()-60):mm.start()]: continue
        tb.append(re.sub(r"\s+"," ",mm.group(0))[:200])
    res["trusted"]=sorted(set(tb)); res["stubs"]=u.stubs
    return res
def deps_of(units):
    """units whose contracts the given units call, transitively"""
    seen=list(units); k=0
    while k<len(seen):
        t=open(os.path.join(V,"contracts",seen[k]+".vrs")).read()
        for m in re.finditer(r"^//@stub (\w+) ",t,re.M):
            if m.group(1) not in seen: seen.append(m.group(1))
        k+=1
    return seen[len(units):]
def classify(u):
    """Failed obligations, and reasons for which the proof says nothing."""
    und=[]
    name=u["unit"]
    for n,w in u["lost"]: und.append(f"{name}: {n}: {w}")
    tool=[e for e in u["errs"] if e["kind"]=="tool"]
    for e in tool: und.append(f"{name}: outside the verifier's reach: {e['msg'][:160]} (in {e['fn']})")
    if u["vac_err"]: und.append(f"{name}: the vacuity check did not run: {u['vac_err']}")
    if u["vacuous"]: und.append(f"{name}: vacuous preconditions: {u['vacuous']}")
    if not u["lost"] and not tool and u["verified"]==0: und.append(f"{name}: no obligations were checked")
    hints={i["fn"]:i["hints_lost"] for i in u["fns"] if i["hints_lost"]}
    failed=[]
    for e in u["errs"]:
        if e["kind"]=="tool": continue
        if e["kind"]=="rlimit": und.append(f"{name}: resource limit in {e['fn']}"); continue
        if e["fn"] is None: und.append(f"{name}: a lemma failed: {e['msg']} (line {e['line']})"); continue
        if e["fn"] in hints: und.append(f"{name}: {e['fn']}: {e['msg']}, but proof hints no longer fit the text: {hints[e['fn']]}"); continue
        failed.append(dict(e,unit=name))
    if u["lost"] or tool:
        # callees may be missing: nothing can be concluded from what is left
        und+= [f"{name}: {e['fn']}: {e['msg']}" for e in failed]; failed=[]
    return {"failed":failed,"undecided":und}
def is_safety(e):
    """the failed obligation says that the code may panic, overflow or not end"""
    m,t=e["msg"],e["text"]
    if m.startswith("possible ") or m.startswith("decreases") or m.startswith("precondition not met: index"): return True
    return m.startswith("precondition not satisfied") and ("std_specs/" in t or "requires false" in t or "failed precondition" not in t)
if __name__=="__main__":
    vac="--vac" in sys.argv
    a=[x for x in sys.argv[1:] if x!="--vac"]
    r=run_unit(a[0],os.environ.get("REPO","/repo"),extra=a[1:],vacuity=vac)
    print(r["stderr"][-6000:])
    print({k:r[k] for k in("verified","errors","success","wall_s","smt_ms","lost","vacuous","vacuity_checked")})
    for i in r["fns"]:
        if i["hints_lost"]: print("HINT LOST",i["fn"],i["hints_lost"])
