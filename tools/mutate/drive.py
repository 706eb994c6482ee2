#!/usr/bin/env python3
import json, os, random, shutil, subprocess, sys, time, re
from concurrent.futures import ThreadPoolExecutor
import threading
VW="/tmp/vwm"   # frozen copy of the machinery
PKGS={"bandersnatch/common":60,"bandersnatch/exponents":50,"bandersnatch/errorsWithData":160,"bandersnatch/fieldElements":220,"bandersnatch/curvePoints":220,"bandersnatch/pointserializer":220,"internal":130}
RULES=[("fe_endianness",["C01"]),("embedded_params",["C02","S05"]),("common_constants",["C01","C02","C03"]),("bandersnatch/common/",["C01","C02","I05","S05"]),
("exponents/glv",["E02","E03","E01"]),("exponents/",["E01","E02","E03"]),
("formatting_",["W01","W02","W03","W04"]),("errorsWithData/validate",["W03","W02"]),("params_to_data",["W05","W04","W06"]),("dataOverride",["W04","W05","W07"]),
("incomparable",["W07","W04","W06"]),("dummyErr",["W07","W04"]),("errorsWithData/",["W04","W05","W07","W06","W01","W03"]),
("naive",["G09"]),("impl_sampling",["G09"]),("fieldElements/utility",["F10"]),("field_element_batch",["F04"]),("field_element_serialize",["F05"]),("uint256_serialize",["F05"]),("fieldElements/errors",["F05"]),("square_root",["F02","F10"]),("field_element_bigInt",["F09"]),("bigInt",["F03"]),
("field_element",["F01","F03","F02","F08","F05","F04"]),("uint256_mont",["F10","F07","F01","F03"]),("modulus",["F10","F07","F01"]),("uint256_modular",["F10","F07","F08","F02","F01"]),("uint256",["F06","F07","F08"]),("fieldElements/",["F08","F06","F01","F02","F05"]),
("impl_add",["G01","G03","G09"]),("impl_double",["G01","G03"]),("impl_endo",["G07","G03"]),("impl_equality",["G02","G03"]),("impl_subgroup",["G02","G04","G06"]),("torsion",["G09","G02","G01"]),
("impl_serialize",["G04","S02"]),("serializer_curve_field",["G04"]),("batch_op",["G05"]),("curve_point_slice",["G08","G05","S03"]),("error_handler",["G03"]),
("doubleproj",["G09","G05","G06","G02","G01","G03","G07"]),("curvePoints/",["G09","G05","G06","G02","G01","G03","G07","G04"]),
("headerSer",["S03","S05","S04","S01"]),("values_ser",["S01","S05","S02","S04"]),("basic_ser",["S02","S05","S01","S04"]),("curve_points.go",["S03","S04"]),("pointserializer/",["S05","S03","S04","S01","S02"]),
("callcounters",["I01"]),("stack",["I02"]),("precomp",["I03"]),("failingIO",["I04"]),("errorTransform",["W08","S04","F05"]),("internal/",["I05","S05","W05"])]
def checks(f):
    for k,v in RULES:
        if k in f: return v
    return []
seed=int(sys.argv[1]); NW=int(sys.argv[2]); scale=float(sys.argv[3]); only=sys.argv[4:] 
out=open("/tmp/mut/res-%d.jsonl"%seed,"a"); lock=threading.Lock()
rng=random.Random(seed)
todo=[]
for p,n in PKGS.items():
    if only and not any(o in p for o in only): continue
    fs=subprocess.check_output("find %s -name '*.go' ! -name '*_test.go' ! -name 'callcounters_active*' ! -name '*_old.go' ! -name 'curve_point_impl_serialize.go' "%p,shell=True,cwd="/repo",text=True).split()
    ms=[json.loads(l) for l in subprocess.check_output(["/tmp/mut/mut"]+sorted(fs),cwd="/repo",text=True).splitlines()]
    # at most 1 in 3 of ints
    rng.shuffle(ms)
    todo+=ms[:int(n*scale)]
rng.shuffle(todo)
ENV=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",GOWORK="off",PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"])
base=json.load(open("/opt/vp/BASELINE.json"))["stable"]
pk=sorted({"./"+"/".join(t.split("/")[3:-1]) for t in base})
def stable(repo):
    try: r=subprocess.run(["go","test","-json","-vet=off","-count=1","-timeout","60s"]+pk,cwd=repo,env=ENV,capture_output=True,text=True,timeout=200)
    except subprocess.TimeoutExpired: return False
    ok=set()
    for l in r.stdout.splitlines():
        try:o=json.loads(l)
        except Exception: continue
        if o.get("Action")=="pass" and "Test" in o: ok.add(o["Package"]+"/"+o["Test"])
    return all(t in ok for t in base)
def worker(k):
    w="/tmp/mut/w%d"%k
    shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
    subprocess.run(["git","clone","-q","/repo",w+"/repo"],check=True)
    while True:
        with lock:
            if not todo: return
            m=todo.pop()
        p=w+"/repo/"+m["file"]; src=open(p,"rb").read()
        new=src[:m["a"]]+m["new"].encode()+src[m["b"]:]
        open(p,"wb").write(new)
        t=time.time(); res=[]; st="survived"
        try:
            if subprocess.run(["go","build","./bandersnatch/...","./internal/..."],cwd=w+"/repo",env=ENV,capture_output=True).returncode: st="nobuild"
            elif not stable(w+"/repo"): st="tests"
            else:
                for c in checks(m["file"]):
                    e=dict(ENV,ZZ_REPO=w+"/repo",ZZ_BUILD=w+"/build",ZZ_EVIDENCE=w+"/ev",ZZ_REPLAYS=w+"/rp",ZZ_NOMODEL="1")
                    try:
                        r=subprocess.run(["python3","run.py","check",c,"--tier","quick","--seed","1"],cwd=VW,env=e,capture_output=True,text=True,timeout=600)
                        rc=r.returncode; tail=(r.stdout+r.stderr)[-600:]
                    except subprocess.TimeoutExpired: rc,tail=-1,"timeout"
                    res.append((c,rc) if rc in(0,1) else (c,rc,tail))
                    shutil.rmtree(w+"/rp",ignore_errors=True)
                    if rc==1: st="killed"; break
                if st=="survived" and any(x[1]!=0 for x in res): st="noanswer"
        finally:
            open(p,"wb").write(src)
        m.update(status=st,res=res,wall=round(time.time()-t,1))
        with lock: out.write(json.dumps(m)+"\n"); out.flush()
with ThreadPoolExecutor(NW) as ex: list(ex.map(worker,range(NW)))
print("finished")
