import sys,os,random,re; sys.path.insert(0,'/verif/sa')
HEAD='''
from pydantic import BaseModel, ConfigDict, Field, RootModel, AnyUrl, AfterValidator, BeforeValidator
from typing import Any, Union, Literal, Annotated
import enum
def m0(v): return "M0"
def m1(v): return "M1"
def m2(v): return "M2"
class M(BaseModel):
    a: int = 0
class M2(BaseModel):
    a: int = 0
    b: Any = None
class RM(BaseModel):
    model_config = ConfigDict(revalidate_instances="always")
    a: int = 0
class Ref(BaseModel):
    model_config = ConfigDict(extra="forbid")
    r: str = Field(alias="$ref")
class OpenX(BaseModel):
    model_config = ConfigDict(extra="allow")
    a: Union[int, None] = None
    n: Union[M2, Ref, None] = None
class Root(RootModel[dict[str, int]]):
    pass
class RootM(RootModel[dict[str, Union[M, Ref]]]):
    pass
class Emp(BaseModel):
    pass
class SE(str, enum.Enum):
    A = "a"
class Al(BaseModel):
    model_config = ConfigDict(validate_by_name=True, validate_by_alias=True, extra="allow")
    a_b: int = Field(0, alias="aB")
    n: Union[OpenX, str, None] = None
def pos(v):
    if isinstance(v, int) and v < 0:
        raise ValueError("neg")
    return v
'''
T=["int","str","float","bool","Any","None","list[int]","list[Any]","list[str]","dict[str, int]","dict[str, Any]","M","M2","RM","Ref","OpenX","Root","RootM","Emp","SE","Al","Literal['a']","AnyUrl","list[M]","list[Ref]","dict[str, M2]","dict[str, OpenX]","Union[int, str]","Union[M, Ref]","Annotated[int, Field(ge=0)]","Annotated[int, AfterValidator(pos)]","Annotated[str, BeforeValidator(pos)]","set[str]","Annotated[str, Field(min_length=2)]"]
V=["1","'1'","'a'","True","1.0","2.5","None","[1]","['1']","[]","{}","{'a': 1}","{'a': '1'}","{'$ref': 'x'}","{'b': 1}","{'a': 1, 'b': 2}","{'a': 1, 'n': {'a': 1, 'b': 3}}","{'n': {'$ref': 'u'}}","[{'a': 1}]","[{'$ref': 'z'}]","{'k': {'a': 1}}","{'k': {'$ref': 'x'}}","M()","M(a=1)","RM(a=2)","OpenX(a=1)","'http://a.b/c'","SE.A","{'a_b': 1}","{'aB': 1}","{'aB': 1, 'n': {'a': 1}}","{'n': {'a': 1, 'n': {'a': 1}}}","(1,)","-1","b'a'","{'x'}","Ref(**{'$ref': 'u'})","Root({'a': 1})"]
rnd=random.Random(int(sys.argv[1]) if len(sys.argv)>1 else 1)
N=int(sys.argv[2]) if len(sys.argv)>2 else 1500
src=HEAD; cases=[]
for i in range(N):
    ts=rnd.sample(T,rnd.choice([2,2,3]))
    ms=", ".join(f"Annotated[{t}, AfterValidator(m{j})]" for j,t in enumerate(ts))
    src+=f"class K{i}(BaseModel):\n    u: Union[{ms}]\n"
    cases.append((i,ts,rnd.choice(V)))
src+="FN = [\n"+"".join(f"    lambda: K{i}(u={v}).u,\n" for i,ts,v in cases)+"]\n"
if os.environ.get("REAL"):
    import warnings; warnings.simplefilter("ignore")
    ns={"__name__":"real"}; import types,sys as _s; mod=types.ModuleType("real"); _s.modules["real"]=mod; ns=mod.__dict__
    exec(src,ns)
    import json; out=[]
    for f in ns["FN"]:
        try: out.append(f())
        except Exception as e: out.append(type(e).__name__)
    print(json.dumps(out)); sys.exit()
import subprocess,json
real=json.loads(subprocess.run(["/opt/venv/bin/python","-B","-W","ignore",__file__]+sys.argv[1:],env={**os.environ,"REAL":"1"},capture_output=True,text=True,check=True).stdout)
import check,interp
from core import *
def go():
    w=interp.World("/repo"); w.load_all()
    ctx=check.Ctx(w,"quick","X"); res=[]
    m=w.load_source("probe",src)
    fn=m.ns["FN"]
    bad=0
    for (i,ts,v),f,r in zip(cases,fn,real):
        for run,o in ctx.paths(lambda: w.call(f,[],{})):
            if o.kind=="return": g=o.value
            elif o.kind=="raise": g=exc_name(o.exc)
            else: g=o.kind+str(o.value)
            if g!=r:
                bad+=1
                if bad<25: print(i,ts,v,"real",r,"model",g)
    print("bad",bad,"of",len(cases))
check.big(go)
