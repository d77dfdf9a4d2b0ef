import sys,os,random,json; sys.path.insert(0,'/verif/sa')
t=json.load(open('/verif/spec/classes.json'))
seed=int(sys.argv[1]); N=int(sys.argv[2])
rnd=random.Random(seed)
VN=["UnifiedReferencesValidator","TagsRefValidator","ExternalDocsRefValidator"]
MINS={
    "CorrelationID": {"location": "$message.header#/id"},
    "MessageExample": {"payload": {"a": 1}},
    "AMQPChannelBindings": {"is": "queue", "queue": {}},
    "SolaceDestination": {"destinationType": "queue", "queue": {}},
    "SecurityScheme": {"type": "userPassword"},
    "OAuthFlow": {"availableScopes": {}, "authorizationUrl": "https://a.b", "tokenUrl": "https://a.b"},
    "AsyncAPI3": {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}},
}
JUNK=[None,1,0,-1,"","a","$ref",True,1.5,[],{},[None],["a"],[1],{"a":1},{"a":None},{"$ref":"#/a"},{"x-y":1},{"$ref":1},{"$ref":"#/a","z":1},[{}],{"a":{}},"https://e.x/a",999999999,256,"a"*300,{"type":"object"},{"schemaFormat":"a","schema":1},"$message.x#/y","3.0.0\n","a@b.co"]
def gen(j,d):
    if rnd.random()<0.001: return rnd.choice(JUNK)
    k=j[0]
    if k=="union": return gen(rnd.choice(j[1]),d)
    if k=="model": return obj(j[1],d+1)
    if k=="str": return rnd.choice(["$message.header#/x"])
    if k=="int": return rnd.choice([1])
    if k=="float": return rnd.choice([1.5,2,0.0])
    if k=="bool": return rnd.choice([True,False])
    if k=="any": return 1
    if k=="none": return None
    if k=="url": return rnd.choice(["https://e.x/a"])
    if k=="lit": return rnd.choice(j[1])
    if k in("list","set"): return [gen(j[1],d+1) for _ in range(rnd.choice([0,1,1,2]) if d<6 else 0)]
    if k=="dict": return {rnd.choice(["a","b_1","k"]):gen(j[2],d+1) for _ in range(rnd.choice([0,1,1,2]) if d<6 else 0)}
    raise Exception(k)
def obj(c,d):
    s=t[c]
    if d>0 and s["extra"]!="patterned" and rnd.random()<.25: return {"$ref":rnd.choice(REFS.get(c,[]))} if REFS.get(c) and rnd.random()<.93 else {"$ref":rnd.choice(ODD)}
    if s["extra"]=="patterned": return gen(s["fields"]["root"]["type"],d)
    r=dict(MINS.get(c,{}))
    fs=list(s["fields"].items())
    for n,f in fs:
        if n in("extra_converters","extra_validators"): continue
        if f.get("required") or rnd.random()<(.5 if d<2 else .35 if d<4 else .1):
            
            if f["wire"] in r: continue
            r[f["wire"] if rnd.random()<.8 else n]=gen(f["type"],d)
    if rnd.random()<.0: r[rnd.choice(["x-a","x-","unk","x-é","x-a b"])]=rnd.choice(JUNK)
    return r
SEC={}
for n,f in t["Components"]["fields"].items():
    ty=f["type"][1][0] if f["type"][0]=="union" else f["type"]
    if ty[0]!="model": continue
    for m in t[ty[1]]["fields"]["root"]["type"][2][1]: SEC.setdefault(m[1],[]).append(f["wire"])
REFS={c:[f"#/components/{s}/{k}" for s in ss for k in ("a","b_1","k")] for c,ss in SEC.items() if c!="Reference"}
REFS["Channel"]+=["#/channels/a","#/channels/k"]
REFS["Message"]+=["#/channels/a/messages/a","#/channels/k/messages/k"]
REFS["Reference"]=[x for v in REFS.values() for x in v]
REFS["Operation"]=REFS.get("Operation",[])+["#/operations/a"]
ODD=["#/components/tags/zzz","http://x.y","#/info","./x","#","#/components","#/components/externalDocs/a/x"]+REFS["Reference"][:60:2]
def full(x):
    """no stray junk: rejecting documents early tells nothing"""
    return x
names=["AsyncAPI3"]
cases=[]
for i in range(N):
    c=names[i%len(names)]
    cases.append((c,obj(c,0)))
if os.environ.get("REAL"):
    import warnings; warnings.simplefilter("ignore")
    sys.path.insert(0,"/repo")
    import importlib,pydantic
    def td(o):
        if isinstance(o,pydantic.RootModel): return ["R",type(o).__name__,td(o.root)]
        if isinstance(o,pydantic.BaseModel):
            return ["M",type(o).__name__,{k:td(v) for k,v in o.__dict__.items()},{k:td(v) for k,v in (o.__pydantic_extra__ or {}).items()},sorted(o.model_fields_set)]
        if isinstance(o,dict): return {str(k):td(v) for k,v in o.items()}
        if isinstance(o,(list,tuple)): return [td(x) for x in o]
        if isinstance(o,(set,frozenset)): return sorted(map(str,o))
        if o is None or type(o) in (int,str,bool): return o
        if isinstance(o,float): return repr(o)
        if isinstance(o,str): return str(o)
        return "URL" if "Url" in type(o).__name__ else "?"+type(o).__name__
    out=[]
    for c,d in cases:
        C=getattr(importlib.import_module(t[c]["module"]),c)
        import asyncapi3.validators as V
        try: o=C.model_validate(d)
        except pydantic.ValidationError: out.append("bad"); continue
        except Exception as e: out.append("crash "+type(e).__name__); continue
        import logging; rec=[]
        class H(logging.Handler):
            def emit(self,r): rec.append(r.levelname)
        lg=logging.getLogger(); lg.handlers=[H()]; lg.setLevel("WARNING")
        tr=[]
        for n in VN:
            rec.clear()
            try: getattr(V,n)()(o); a="ok"
            except ValueError as e: a="bad "+(str(e)[:90] if 0 else "")
            except Exception as e: a="crash "+type(e).__name__
            tr.append([a,rec.count("WARNING")])
        out.append([tr,""])
    print(json.dumps(out)); sys.exit()
import subprocess
real=json.loads(subprocess.run(["/opt/venv/bin/python","-B","-W","ignore",__file__]+sys.argv[1:],env={**os.environ,"REAL":"1"},capture_output=True,text=True,check=True).stdout)
import check,interp,models
from models import *
from pyd import *
from std import UrlV
import core
def go():
    w=interp.World("/repo"); w.load_all()
    ctx=check.Ctx(w,"quick","X"); sp=Spec(ctx)
    def td(o):
        o=conc(o)
        if isinstance(o,Inst) and w.pyd.is_model(o.cls):
            if w.pyd.is_root(o.cls): return ["R",o.cls.name,td(o.d.get("root"))]
            return ["M",o.cls.name,{k:td(v) for k,v in o.d.live()},{k:td(v) for k,v in (o.extra.live() if o.extra is not None else [])},sorted(o.fset)]
        if isinstance(o,IDict): return {str(k):td(v) for k,v in o.live()}
        if isinstance(o,ISet): return sorted(map(str,o))
        if isinstance(o,(list,tuple)): return [td(x) for x in o]
        if o is None or type(o) in (int,str,bool): return o
        if isinstance(o,float): return repr(o)
        if isinstance(o,str): return str(o)
        if isinstance(o,UrlV): return "URL"
        return "?"+type(o).__name__
    def unj(o):
        o=conc(o)
        if isinstance(o,IDict): return {str(k):unj(v) for k,v in o.live()}
        if isinstance(o,(list,tuple)): return [unj(x) for x in o]
        if isinstance(o,ISet): return [unj(x) for x in o]
        if isinstance(o,UrlV): return str(conc(o.s))
        return o
    bad=0; st={}
    for (c,d),r in zip(cases,real):
        def f():
            a=outcome(w,lambda: sp.validate(sp.cls(c),absval(d)))
            if a[0]=="bad": return "bad"
            if a[0]=="crash": return "crash "+exc_name(a[1].exc)
            o=a[1]; tr=[]
            for n in VN:
                v=w.instantiate(w.modules["asyncapi3.validators"].ns[n],[],{})
                n0=len(core.R().events)
                b=outcome(w,lambda: w.call(v,[o],{}))
                tr.append([{"ok":"ok","bad":"bad ","crash":"crash"}[b[0]],sum(1 for e in core.R().events[n0:] if e[0]=="log" and e[1].rsplit(".",1)[-1] in ("warning","error"))])
            return [tr,""]
        for run,o in ctx.paths(f):
            g=o.value if o.kind=="return" else o.kind+" "+str(o.value)+str(o.exc)
            st[r if isinstance(r,str) else "ok"]=st.get(r if isinstance(r,str) else "ok",0)+1
            if g!=r:
                if isinstance(g,list) and isinstance(r,list) and g[0]==r[0] and r[1]!=g[1]: what="DUMP"; rr,gg=r[1],g[1]
                else: what="VAL"; rr,gg=(r if isinstance(r,str) else r[0]),(g if isinstance(g,str) else g[0])
                def norm(x):
                    if isinstance(x,str) and x.startswith("http"): return x.rstrip("/")
                    if isinstance(x,dict): return {k:norm(v) for k,v in x.items()}
                    if isinstance(x,list): return [norm(v) for v in x]
                    return x
                if norm(rr)==norm(gg): continue
                bad+=1
                if bad<8: print(what,c,json.dumps(d)[:600],"\n  real",json.dumps(rr)[:700],"\n  model",json.dumps(gg,default=str)[:700])
    print("bad",bad,st)
check.big(go)
