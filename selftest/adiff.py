import sys,os,random,json; sys.path.insert(0,'/verif/sa')
t=json.load(open('/verif/spec/classes.json'))
seed=int(sys.argv[1]); N=int(sys.argv[2])
rnd=random.Random(seed)
import importlib.util
MINS={
    "CorrelationID": {"location": "$message.header#/id"},
    "MessageExample": {"payload": {"a": 1}},
    "AMQPChannelBindings": {"is": "queue", "queue": {}},
    "SolaceDestination": {"destinationType": "queue", "queue": {}},
    "SecurityScheme": {"type": "userPassword"},
    "OAuthFlow": {"availableScopes": {}, "authorizationUrl": "https://a.b", "tokenUrl": "https://a.b"},
    "AsyncAPI3": {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}},
}
JUNK=[None,1,0,-1,"","a","$ref",True,1.5,[],{},[None],["a"],[1],{"a":1},{"a":None},{"$ref":"#/a"},{"x-y":1},{"$ref":1},{"$ref":"#/a","z":1},[{}],{"a":{}},"https://e.x/a",999999999,256,"a"*300,{"type":"object"},{"schemaFormat":"a","schema":1},"$message.x#/y","3.0.0\n","a@b.co"]
def gen(j,d):
    if rnd.random()<0.08: return rnd.choice(JUNK)
    k=j[0]
    if k=="union": return gen(rnd.choice(j[1]),d)
    if k=="model": return obj(j[1],d+1)
    if k=="str": return rnd.choice(["a","text","a/{b}","https://e.x","#/components/tags/a","$message.header#/x","a@b.co",""])
    if k=="int": return rnd.choice([0,1,5,100,-1,255,256,48,10**6,10**9,"3",True])
    if k=="float": return rnd.choice([1.5,2,0.0])
    if k=="bool": return rnd.choice([True,False])
    if k=="any": return rnd.choice(JUNK)
    if k=="none": return None
    if k=="url": return rnd.choice(["https://e.x/a","nourl","http://a.b/?x=1"])
    if k=="lit": return rnd.choice(j[1]+["zz"] if rnd.random()<.2 else j[1])
    if k in("list","set"): return [gen(j[1],d+1) for _ in range(rnd.choice([0,1,1,2]) if d<6 else 0)]
    if k=="dict": return {rnd.choice(["a","b_1","c-d","e.f","k"]) if rnd.random()<.9 else rnd.choice(["","ü","a b","x-"]):gen(j[2],d+1) for _ in range(rnd.choice([0,1,1,2]) if d<6 else 0)}
    raise Exception(k)
def obj(c,d):
    s=t[c]
    if rnd.random()<.1: return {"$ref":"#/components/x/"+c}
    if s["extra"]=="patterned": return gen(s["fields"]["root"]["type"],d)
    r=dict(MINS.get(c,{}))
    fs=list(s["fields"].items())
    for n,f in fs:
        if n in("extra_converters","extra_validators"): continue
        if f.get("required") or rnd.random()<(.35 if d<4 else .1):
            if f.get("required") and rnd.random()<.03: continue
            if f["wire"] in r and rnd.random()<.6: continue
            r[f["wire"] if rnd.random()<.8 else n]=gen(f["type"],d)
    if rnd.random()<.08: r[rnd.choice(["x-a","x-","unk","x-é","x-a b"])]=rnd.choice(JUNK)
    return r
names=sorted(t)
cases=[]
for i in range(N):
    c=names[i%len(names)]
    d=obj(c,0)
    ops=[]
    for _ in range(3):
        if t[c]["extra"]=="patterned":
            ty=t[c]["fields"]["root"]["type"]
            ops.append(("item",rnd.choice(["a","b_1","e.f","","zz",3,None]),gen(ty[2],1)) if rnd.random()<.8 else ("attr","root",gen(ty,1)))
        else:
            n=rnd.choice(list(t[c]["fields"]) or ["zz"])
            if n.startswith("extra_"): n="tags"
            if n not in t[c]["fields"] or rnd.random()<.1: ops.append(("attr",rnd.choice(["x-a","unk","x-"]),rnd.choice(JUNK)))
            else: ops.append(("attr",n,gen(t[c]["fields"][n]["type"],1)))
    cases.append((c,d,ops))
if os.environ.get("REAL"):
    import warnings; warnings.simplefilter("ignore")
    sys.path.insert(0,"/repo")
    import importlib,pydantic
    def td(o):
        if isinstance(o,pydantic.RootModel): return ["R",type(o).__name__,td(o.root)]
        if isinstance(o,pydantic.BaseModel):
            return ["M",type(o).__name__,{k:td(v) for k,v in o.__dict__.items()},{k:td(v) for k,v in (o.__pydantic_extra__ or {}).items()},sorted(o.model_fields_set)]
        if isinstance(o,dict): return {str(k):td(v) for k,v in o.items()}
        if isinstance(o,(list,tuple)): return [td(x) for x in o]
        if isinstance(o,(set,frozenset)): return sorted(map(str,o))
        if o is None or type(o) in (int,str,bool): return o
        if isinstance(o,float): return repr(o)
        if isinstance(o,str): return str(o)
        return "URL" if "Url" in type(o).__name__ else "?"+type(o).__name__
    out=[]
    for c,d,ops in cases:
        C=getattr(importlib.import_module(t[c]["module"]),c)
        try: o=C.model_validate(d); 
        except pydantic.ValidationError: out.append("bad"); continue
        except Exception as e: out.append("crash "+type(e).__name__); continue
        tr=[]
        for k,n,v in ops:
            try:
                if k=="item": o[n]=v
                else: setattr(o,n,v)
                tr.append("ok")
            except pydantic.ValidationError: tr.append("bad")
            except Exception as e: tr.append(type(e).__name__)
            tr.append(td(o))
        out.append([tr,""])
    print(json.dumps(out)); sys.exit()
import subprocess
real=json.loads(subprocess.run(["/opt/venv/bin/python","-B","-W","ignore",__file__]+sys.argv[1:],env={**os.environ,"REAL":"1"},capture_output=True,text=True,check=True).stdout)
import check,interp,models
from models import *
from pyd import *
from std import UrlV
import core
def go():
    w=interp.World("/repo"); w.load_all()
    ctx=check.Ctx(w,"quick","X"); sp=Spec(ctx)
    def td(o):
        o=conc(o)
        if isinstance(o,Inst) and w.pyd.is_model(o.cls):
            if w.pyd.is_root(o.cls): return ["R",o.cls.name,td(o.d.get("root"))]
            return ["M",o.cls.name,{k:td(v) for k,v in o.d.live()},{k:td(v) for k,v in (o.extra.live() if o.extra is not None else [])},sorted(o.fset)]
        if isinstance(o,IDict): return {str(k):td(v) for k,v in o.live()}
        if isinstance(o,ISet): return sorted(map(str,o))
        if isinstance(o,(list,tuple)): return [td(x) for x in o]
        if o is None or type(o) in (int,str,bool): return o
        if isinstance(o,float): return repr(o)
        if isinstance(o,str): return str(o)
        if isinstance(o,UrlV): return "URL"
        return "?"+type(o).__name__
    def unj(o):
        o=conc(o)
        if isinstance(o,IDict): return {str(k):unj(v) for k,v in o.live()}
        if isinstance(o,(list,tuple)): return [unj(x) for x in o]
        if isinstance(o,ISet): return [unj(x) for x in o]
        if isinstance(o,UrlV): return str(conc(o.s))
        return o
    bad=0; st={}
    for (c,d,ops),r in zip(cases,real):
        def f():
            a=outcome(w,lambda: sp.validate(sp.cls(c),absval(d)))
            if a[0]=="bad": return "bad"
            if a[0]=="crash": return "crash "+exc_name(a[1].exc)
            o=a[1]; tr=[]
            for k,n,v in ops:
                b=outcome(w,lambda: w.setitem(o,n,absval(v)) if k=="item" else w.setattr(o,n,absval(v)))
                tr.append(b[0] if b[0]!="crash" else exc_name(b[1].exc))
                tr.append(td(o))
            return [tr,""]
        for run,o in ctx.paths(f):
            g=o.value if o.kind=="return" else o.kind+" "+str(o.value)+str(o.exc)
            st[r if isinstance(r,str) else "ok"]=st.get(r if isinstance(r,str) else "ok",0)+1
            if g!=r:
                if isinstance(g,list) and isinstance(r,list) and g[0]==r[0] and r[1]!=g[1]: what="DUMP"; rr,gg=r[1],g[1]
                else: what="VAL"; rr,gg=(r if isinstance(r,str) else r[0]),(g if isinstance(g,str) else g[0])
                def norm(x):
                    if isinstance(x,str) and x.startswith("http"): return x.rstrip("/")
                    if isinstance(x,dict): return {k:norm(v) for k,v in x.items()}
                    if isinstance(x,list): return [norm(v) for v in x]
                    return x
                if norm(rr)==norm(gg): continue
                bad+=1
                if bad<8: print(what,c,json.dumps([d,ops])[:900],"\n  real",json.dumps(rr)[:700],"\n  model",json.dumps(gg,default=str)[:700])
    print("bad",bad,st)
check.big(go)
