"""Checks of the object model: C01-C09, C25 (declared fields, wire names, extras, assignment).

The reviewed table spec/classes.json says what every object must accept and how it is
written.  The oracle for a value is the *specified* type term, evaluated on the very same
abstract value as the class under analysis.
"""
from __future__ import annotations

import json
import re

import core
from core import R, IDict, IList, ISet, Sym, SYMS, OStr, AStr, AInt, ABool, AVal, MISSING, PyRaise, Undecided, AnchorLost, conc, eq, mk, show, truth
from lang import ALL, DFA, lit, regex, words
from objs import ClassV, Inst
from std import UrlV
from pyd import T, Bad, ANY, STR, INT, FLOAT, BOOL, NONE
from check import need, table, is_value_error, classes_by_name, Outcome

URL = "https://example.com/x"
MIN = {
    "CorrelationID": {"location": "$message.header#/id"},
    "MessageExample": {"payload": {"a": 1}},
    "AMQPChannelBindings": {"is": "queue", "queue": {}},
    "SolaceDestination": {"destinationType": "queue", "queue": {}},
    "SecurityScheme": {"type": "userPassword"},
    "OAuthFlow": {"availableScopes": {}, "authorizationUrl": URL, "tokenUrl": URL},
    "AsyncAPI3": {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}},
}
FIELDBASE = {
    ("SecurityScheme", "type_"): {"name": "n", "in": "user", "scheme": "bearer", "flows": {}, "openIdConnectUrl": URL},
    ("SecurityScheme", "bearer_format"): {"type": "http", "scheme": "bearer"},
    ("SecurityScheme", "scopes"): {"type": "oauth2", "flows": {}},
    ("Channel", "parameters"): {"address": "a/{b}"},
    ("Channel", "address"): {},
    ("MessageExample", "payload"): {"headers": {}},
    ("MessageExample", "headers"): {"payload": 1},
    ("AMQPChannelBindings", "is_"): {"queue": {}},
    ("AMQPChannelBindings", "exchange"): {"is": "routingKey", "queue": None},
    ("AMQPChannelBindings", "queue"): {"is": "queue"},
    ("IBMMQChannelBindings", "destination_type"): {"queue": {"objectName": "q"}},
    ("IBMMQMessageBindings", "headers"): {"type": "binary"},
    ("KafkaServerBindings", "schema_registry_vendor"): {"schemaRegistryUrl": "x"},
    ("SolaceDestination", "topic"): {"destinationType": "topic", "queue": None},
    ("SolaceDestination", "queue"): {"destinationType": "queue"},
    ("SolaceDestination", "destination_type"): {"queue": {}},
}
SAMPLE = {
    ("AsyncAPI3", "asyncapi"): "3.1.0", ("Contact", "email"): "a@example.com", ("CorrelationID", "location"): "$message.payload#/a",
    ("SecurityScheme", "type_"): "plain",
}


def absval(x):
    if isinstance(x, dict):
        return IDict([(k, absval(v)) for k, v in x.items()])
    if isinstance(x, list):
        return IList([absval(v) for v in x])
    return x


class Spec:
    def __init__(self, ctx):
        self.ctx, self.w = ctx, ctx.w
        self.t = table("classes.json")
        self._cls = {}

    def cls(self, name) -> ClassV:
        c = self._cls.get(name)
        if c is None:
            m = self.t[name]["module"] if name in self.t else ""
            pk = ["asyncapi3.models", "asyncapi3.models.bindings"]
            c = need(self.w, name, m, *pk)
            if not isinstance(c, ClassV) or not self.w.pyd.is_model(c):
                raise AnchorLost(f"{name} is not a model class any more")
            self._cls[name] = c
        return c

    def term(self, j) -> T:
        k = j[0]
        if k == "model":
            return T("model", self.cls(j[1]))
        if k == "lit":
            return T("lit", tuple(sorted(j[1], key=repr)))
        if k == "union":
            out = []
            for x in j[1]:
                y = self.term(x)
                for z in (y.a[0] if y.k == "union" else (y,)):
                    if z not in out:
                        out.append(z)
            return T("union", tuple(out))
        if k in ("list", "set"):
            return T(k, self.term(j[1]))
        if k == "dict":
            return T("dict", self.term(j[1]), self.term(j[2]))
        if k == "url":
            return T("url", j[1])
        return {"any": ANY, "str": STR, "int": INT, "float": FLOAT, "bool": BOOL, "none": NONE}[k]

    # ------------------------------------------------------------------ data
    def sample(self, j, owner=None, field=None):
        """JSON of one valid value of a specified type."""
        if (owner, field) in SAMPLE:
            return SAMPLE[owner, field]
        k = j[0]
        if k == "union":
            return self.sample(next(x for x in j[1] if x[0] != "none"))
        if k == "model":
            return self.min(j[1])
        return {"str": "text", "int": 7, "float": 1.5, "bool": True, "any": {"a": 1}, "none": None,
                "url": URL, "lit": j[1][0] if k == "lit" else None,
                "list": [self.sample(j[1])] if k == "list" else None,
                "dict": {"k": self.sample(j[2])} if k == "dict" else None}[k]

    def min(self, name):
        if name in MIN:
            return MIN[name]
        d = self.t[name]
        if d["extra"] == "patterned":
            return {"entry": self.sample(d["fields"]["root"]["type"][2])}
        return {f["wire"]: self.sample(f["type"]) for f in d["fields"].values() if f.get("required")}

    def base(self, name, field):
        b = {**self.min(name), **FIELDBASE.get((name, field), {})}
        b.pop(self.t[name]["fields"][field]["wire"], None)
        return {k: v for k, v in b.items() if v is not None}

    def rules(self, name):
        return "rules" in self.t[name]

    def validate(self, cls, data):
        return self.w.call(self.w.getattr(cls, "model_validate"), [data], {})


def norm(t):
    """Canonical form of an actual type term for structural comparison."""
    if t.k == "nullable":
        i = norm(t.a[0])
        ms = list(i.a[0]) if i.k == "union" else [i]
        if NONE not in ms:
            ms.append(NONE)
        return T("union", tuple(ms))
    if t.k == "union":
        out = []
        for x in t.a[0]:
            y = norm(x)
            for z in (y.a[0] if y.k == "union" and len(y.a) == 1 else (y,)):
                if z not in out:
                    out.append(z)
        return T("union", tuple(out), *t.a[1:]) if len(out) > 1 else out[0]
    if t.k in ("list", "set"):
        return T(t.k, norm(t.a[0]))
    if t.k == "dict":
        return T("dict", norm(t.a[0]), norm(t.a[1]))
    return t


def models_in(t, out=None):
    out = [] if out is None else out
    if t.k == "model":
        if t.a[0] not in out:
            out.append(t.a[0])
    for a in t.a:
        if isinstance(a, T):
            models_in(a, out)
        elif isinstance(a, (list, tuple)):
            for x in a:
                if isinstance(x, T):
                    models_in(x, out)
    return out


def same(a, b):
    a, b = conc(a), conc(b)
    if a is b:
        return True
    if isinstance(a, Inst) or isinstance(b, Inst):
        return isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls
    if isinstance(a, IDict):
        if not isinstance(b, IDict) or len(a) != len(b):
            return False
        for k, v in a.live():
            i = b.find(k)
            if i is None or not same(v, b.pairs[i][1]):
                return False
        return True
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, UrlV) or isinstance(b, UrlV):
        return isinstance(a, UrlV) and isinstance(b, UrlV) and a.t.name == b.t.name and same(a.s, b.s)
    if isinstance(a, bool) != isinstance(b, bool) or isinstance(a, float) != isinstance(b, float) and isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return False
    return truth(eq(a, b))


# ---------------------------------------------------------------------- probes
def scalars():
    return [("null", lambda: None),
            ("any string", lambda: R().sym("value", [AStr()])),
            ("any integer", lambda: R().sym("value", [AInt()])),
            ("a boolean", lambda: R().sym("value", [ABool(True), ABool(False)])),
            ("a fraction", lambda: 1.5)]


def generic(sp):
    ref = sp.cls("Reference")
    return scalars() + [
        ("an empty list", lambda: IList([])),
        ("an empty map", lambda: IDict()),
        ("a $ref map", lambda: IDict([("$ref", R().sym("ref", [AStr()]))])),
        ("a Reference instance", lambda: sp.validate(ref, IDict([("$ref", "#/a/b")]))),
        ("a map of an unknown name", lambda: IDict([("unknownName", 1)])),
        ("a list of null", lambda: IList([None])),
        ("a list of a string", lambda: IList([R().sym("item", [AStr()])])),
        ("a list of an integer", lambda: IList([R().sym("item", [AInt()])])),
        ("a map to null", lambda: IDict([(mk(R().newkey("key")), None)])),
        ("a map to a string", lambda: IDict([(mk(R().newkey("key")), R().sym("item", [AStr()]))])),
        ("a map to an integer", lambda: IDict([(mk(R().newkey("key")), R().sym("item", [AInt()]))])),
        ("an object of a foreign class", lambda: foreign(sp)),
    ]


def foreign(sp):
    """An object that belongs nowhere in a document."""
    return Inst(need(sp.w, "TagsRefValidator", "asyncapi3.validators"))


def shapes(sp, t, depth=0):
    """Values that fit (or nearly fit) a type term."""
    out = []
    if t.k == "union":
        for x in t.a[0]:
            out += shapes(sp, x, depth)
    elif t.k in ("nullable", "con"):
        out += shapes(sp, t.a[0], depth)
    elif t.k == "fn":
        out += shapes(sp, t.a[2], depth)
    elif t.k == "model":
        c = t.a[0]
        if c.name in sp.t:
            out.append((f"a {c.name} map", lambda c=c: absval(sp.min(c.name))))
            out.append((f"a {c.name} instance", lambda c=c: sp.validate(c, absval(sp.min(c.name)))))
            fs = sp.t[c.name]["fields"]
            for n, f in fs.items():
                if not f.get("required") and f["type"][0] != "any" and n != "root" and (c.name, n) not in FIELDBASE:
                    out.append((f"a {c.name} map with {f['wire']}", lambda c=c, n=n, f=f: absval({**sp.base(c.name, n), f["wire"]: sp.sample(f["type"], c.name, n)})))
                    break
    elif t.k == "lit":
        for x in t.a[0][:3]:
            out.append((f"the value {x!r}", lambda x=x: x))
    elif t.k == "url":
        out.append(("a URL string", lambda: URL))
    elif t.k in ("list", "set") and depth < 2:
        for l, p in (generic(sp) if depth == 0 else scalars()) + shapes(sp, t.a[0], depth + 1):
            out.append((f"a list of {l}", lambda p=p: IList([p()])))
    elif t.k == "dict" and depth < 2:
        for l, p in (generic(sp) if depth == 0 else scalars()) + shapes(sp, t.a[1], depth + 1):
            out.append((f"a map to {l}", lambda p=p: IDict([(mk(R().newkey("key")), p())])))
        out.append(("a map with an integer key", lambda: IDict([(3, "x")])))
    return out


def field_probes(sp, spec_t, act_t, extra=()):
    seen, out = set(), []
    for l, p in generic(sp) + shapes(sp, spec_t) + (shapes(sp, act_t) if act_t != spec_t else []) + list(extra):
        if l not in seen:
            seen.add(l)
            out.append((l, p))
    return out


def cls_of_field(cls, n):
    return n


# ---------------------------------------------------------------------- running
class Ob:
    """One obligation: all paths of fn must satisfy judge(run, outcome) -> problem or None."""

    def __init__(self, ctx, part, prop, rule):
        self.ctx, self.part, self.prop, self.rule = ctx, part, prop, rule

    def run(self, key, fn, judge, budget=0, max_paths=3000, max_steps=300_000, where=None):
        ctx, part = self.ctx, self.part
        if ctx.late():
            part.inc("not_reached")
            return None
        part.inc("obligations")
        und = 0
        stat = {}

        def body():
            try:
                o = Outcome("return", fn())
            except PyRaise as e:
                o = Outcome("raise", exc=e.exc, site=e.site)
            return o, judge(R(), o)
        for run, out in ctx.paths(body, budget=budget, max_paths=max_paths, max_steps=max_steps, part=part):
            if out.kind == "undecided":
                und += 1
                ctx.undecided(key, out.value, part)
                continue
            if out.kind == "diverges":
                why = "does not terminate"
            elif out.kind == "raise":
                why = out.text()
            else:
                out, why = out.value
            stat[out.kind] = stat.get(out.kind, 0) + 1
            if why:
                if run.taint:
                    und += 1
                    ctx.undecided(key, "imprecise: " + run.taint, part)
                    continue
                ctx.violation(key, self.rule, f"{key}: {why}", run, out, where=where or out.site, part=part)
                return stat
        if not und:
            part.inc("decided")
        return stat


def outcome(w, fn):
    """Run fn inside the current path; rejections as value errors become ("bad", exc)."""
    try:
        return "ok", fn()
    except PyRaise as e:
        if is_value_error(w, e.exc) or w.exc_matches(e.exc, (AssertionError,)):
            return "bad", e
        return "crash", e
    except Bad as e:
        return "bad", e


def fieldval(sp, o, n):
    return sp.w.getattr(o, n)


def data_with(sp, name, field, v, key=None):
    f = sp.t[name]["fields"][field]
    d = absval(sp.base(name, field))
    d.set(key or f["wire"], v)
    return d


def takes_ref(sp, t, label):
    """The $ref map of the probe lies where the specified type allows a Reference."""
    ts = list(t.a[0]) if t.k == "union" else [t]
    for start, k, i in (("a list of ", ("list", "set"), 0), ("a map to ", ("dict",), 1)):
        if label.startswith(start):
            return any(takes_ref(sp, x.a[i], label[len(start):]) for x in ts if x.k in k) and not any(x.k == "any" or x.k == "model" for x in ts)
    return any(x.k == "model" and x.a[0] is sp.cls("Reference") for x in ts)


RULE08 = "a field accepts exactly the values of its specified type, and reads them as the specified objects"


def check_field(sp, ob, name, n, force=False, extra=()):
    w = sp.w
    cls = sp.cls(name)
    f = sp.t[name]["fields"][n]
    info = w.pyd.info(cls)
    spec_t = sp.term(f["type"])
    fm = info.fields.get(n)
    part = ob.part
    key0 = f"{name}.{n}"
    if fm is None:
        # the field may be declared under another Python name
        ob.run(key0 + " exists", lambda: None, lambda r, o: "the field is not declared", where=cls.qual)
        return
    act = norm(fm.term)
    plain = act == spec_t and not fm.validators and not info.before and not info.wrap and not force and "__init__" not in cls.ns
    narrow = bool(f.get("narrow")) or sp.rules(name)
    root = sp.t[name]["extra"] == "patterned"
    probes = field_probes(sp, spec_t, act, extra) if not plain else \
        [generic(sp)[0]] + shapes(sp, spec_t)[:8] + [("a sample", lambda: absval(sp.sample(f["type"], name, n)))]
    hits = 0
    for l, p in probes:
        def fn(p=p):
            v = p()
            s = outcome(w, lambda: w.pyd.validate(spec_t, v))
            if root:
                a = outcome(w, lambda: sp.validate(cls, v))
            else:
                a = outcome(w, lambda: sp.validate(cls, data_with(sp, name, n, v)))
            got = fieldval(sp, a[1], n) if a[0] == "ok" else None
            return s, a, got

        def judge(run, out):
            nonlocal hits
            if out.kind == "raise":
                return f"given {l}: {out.text()}"
            s, a, got = out.value
            if a[0] == "crash":
                return None  # C22
            if s[0] == "bad" and a[0] == "ok":
                return f"{l} is accepted (as {show(got)}), which the specification does not allow"
            if s[0] == "ok" and a[0] == "bad" and not narrow:
                return f"{l} is rejected, which the specification allows"
            if s[0] == "ok" and a[0] == "ok":
                hits += 1
                if l.endswith("a $ref map") and takes_ref(sp, spec_t, l):
                    g = conc(got)
                    while isinstance(g, (list, IDict)) and len(g):
                        g = conc(g[0] if isinstance(g, list) else g.vals_()[0])
                    if not (isinstance(g, Inst) and g.cls is sp.cls("Reference")):
                        return f"{l} is read as {show(got)}, not as a reference"
                if not same(s[1], got):
                    return f"{l} is read as {show(got)} instead of {show(s[1])}"
            return None
        ob.run(f"{key0} given {l}", fn, judge, where=f"{cls.qual}.{n}")
    if root:
        return
    # the field left out
    def absent():
        d = absval(sp.base(name, n))
        a = outcome(w, lambda: sp.validate(cls, d))
        return a, fieldval(sp, a[1], n) if a[0] == "ok" else None

    def judge(run, out):
        if out.kind == "raise":
            return out.text()
        a, got = out.value
        if f.get("required"):
            return "a value is required but may be left out" if a[0] == "ok" else None
        if a[0] == "bad" and not FIELDBASE.get((name, n)) and n not in ("payload", "headers"):
            return "the optional field must be given"
        if a[0] == "ok":
            want = f.get("default")
            if isinstance(want, (dict, list)):
                want = absval(want)
            if not same(got, want):
                return f"left out it is {show(got)} instead of {want!r}"
        return None
    ob.run(key0 + " left out", absent, judge, where=f"{cls.qual}.{n}")
    if hits == 0 and not root:
        part.undecided.append(f"{key0}: no probe is accepted")


def c08(ctx):
    sp = Spec(ctx)

    def task(name, part):
        ob = Ob(ctx, part, "C08", RULE08)
        for n in sp.t[name]["fields"]:
            check_field(sp, ob, name, n, force=True)
    ctx.pmap(task, [n for n in sp.t])


# ---------------------------------------------------------------------- C09
KINDS = ("Server", "Channel", "Operation", "Message")
RULE09 = "the four bindings objects offer the same 19 protocols, each holding that protocol's binding object of that kind"


def c09(ctx):
    sp = Spec(ctx)
    w = ctx.w
    names = [f"{k}BindingsObject" for k in KINDS]

    def task(item, part):
        ob = Ob(ctx, part, "C09", RULE09)
        name, proto = item
        cls = sp.cls(name)
        info = w.pyd.info(cls)
        if proto is None:
            def judge(run, out):
                if out.kind == "raise":
                    return out.text()
                extra = [n for n in info.fields if n not in sp.t[name]["fields"]]
                return f"offers the undocumented protocols {extra}" if extra else None
            ob.run(f"{name} protocols", lambda: None, judge, where=cls.qual)
            return
        others = []
        for o in names:
            if o != name:
                oc = sp.t[o]["fields"][proto]["type"][1][0][1]
                others.append((f"a {oc} instance", lambda oc=oc: sp.validate(sp.cls(oc), absval(sp.min(oc)))))
        check_field(sp, ob, name, proto, force=True, extra=others)
        # written under the protocol's name
        bc = sp.t[name]["fields"][proto]["type"][1][0][1]

        def fn():
            o = sp.validate(cls, IDict([(proto, absval(sp.min(bc)))]))
            return w.call(w.getattr(o, "model_dump"), [], {})

        def judge(run, out):
            if out.kind == "raise":
                return out.text()
            d = out.value
            ks = list(d.keys_())
            return f"is written as {show(d)}" if ks != [proto] else None
        ob.run(f"{name}.{proto} written", fn, judge, where=cls.qual)

        # the published names mean the same classes
        def pub():
            bad = []
            for m in ("asyncapi3.models.bindings", "asyncapi3.models"):
                mod = w.modules.get(m)
                if mod is None:
                    continue
                v = mod.ns.get(bc)
                if v is not None and v is not sp.cls(bc):
                    bad.append(f"{m}.{bc}")
            return bad
        ob.run(f"{bc} published", pub, lambda r, o: f"{o.value} is another class" if o.kind == "return" and o.value else None, where=cls.qual)
    ctx.pmap(task, [(n, p) for n in names for p in [None, *sp.t[n]["fields"]]])


# ---------------------------------------------------------------------- C05
RULE05 = "every field is read from and written under its specified wire name"


def c05(ctx):
    sp = Spec(ctx)
    w = ctx.w

    def task(name, part):
        ob = Ob(ctx, part, "C05", RULE05)
        cls = sp.cls(name)
        d = sp.t[name]
        if d["extra"] == "patterned":
            return
        for n, f in d["fields"].items():
            wire = f["wire"]
            js = sp.sample(f["type"], name, n)

            def fn(n=n, f=f, js=js, wire=wire):
                v = absval(js)
                exp = w.pyd.validate(sp.term(f["type"]), absval(js))
                o = sp.validate(cls, data_with(sp, name, n, v))
                got = fieldval(sp, o, n)
                outs = {}
                outs["model_dump()"] = w.call(w.getattr(o, "model_dump"), [], {})
                outs["model_dump(mode='json')"] = w.call(w.getattr(o, "model_dump"), [], {"mode": "json"})
                outs["model_dump(by_alias=True)"] = w.call(w.getattr(o, "model_dump"), [], {"by_alias": True})
                j = w.call(w.getattr(o, "model_dump_json"), [], {})
                outs["model_dump_json()"] = getattr(j, "data", j)
                return exp, got, outs, {k: w.pyd.dump_value(exp, {"mode": "json"} if "json" in k else {}) for k in outs}

            def judge(run, out, n=n, f=f, wire=wire):
                if out.kind == "raise":
                    return f"a valid value under {wire!r} is rejected: {out.text()}"
                exp, got, outs, want = out.value
                if not same(exp, got):
                    return f"the value under {wire!r} is read as {show(got)}"
                for how, x in outs.items():
                    if not isinstance(x, IDict):
                        raise_undecided(how, x)
                    if wire not in x:
                        return f"{how} has no {wire!r}: {show(x)}"
                    if not same(x.get(wire), want[how]):
                        return f"{how} writes {show(x.get(wire))} under {wire!r}"
                    if n != wire and n in x and n not in [g["wire"] for g in d["fields"].values()]:
                        return f"{how} writes {n!r} as well"
                return None
            ob.run(f"{name}.{n}", fn, judge, where=f"{cls.qual}.{n}")

        def uniq(run, out):
            seen = {}
            for n, fm in w.pyd.info(cls).fields.items():
                if fm.exclude is True:
                    continue
                for a in {fm.ser_alias or n, fm.val_alias or n} if isinstance(fm.val_alias, (str, type(None))) else {fm.ser_alias or n}:
                    if a in seen and seen[a] != n:
                        return f"{seen[a]} and {n} share the wire name {a!r}"
                    seen[a] = n
            return None
        ob.run(f"{name} wire names", lambda: None, uniq, where=cls.qual)
        # a document as a whole uses the wire names of nested objects too: covered by the nested class
    ctx.pmap(task, list(sp.t))


def raise_undecided(how, x):
    raise Undecided(f"{how} returns {show(x)}")


# ---------------------------------------------------------------------- C06
RULE06 = "a field is omitted from the output only if its value is None"
FALSY = (("False", lambda: False), ("0", lambda: 0), ("an empty string", lambda: ""), ("an empty list", lambda: IList([])), ("an empty map", lambda: IDict()))
ODD = (("0.0", lambda: 0.0), ("-0.0", lambda: -0.0), ("infinity", lambda: float("inf")), ("a blank", lambda: " "), ("'null'", lambda: "null"), ("'None'", lambda: "None"), ("'0'", lambda: "0"),
       ("a list of null", lambda: IList([None])), ("a map with a null", lambda: IDict([("a", None)])), ("a map with an empty map", lambda: IDict([("a", IDict())])),
       ("not a number", lambda: float("nan")))


def dumps(w, o):
    out = {"model_dump()": w.call(w.getattr(o, "model_dump"), [], {})}
    j = w.call(w.getattr(o, "model_dump_json"), [], {})
    out["model_dump_json()"] = getattr(j, "data", j)
    for k, x in out.items():
        if not isinstance(x, IDict):
            raise_undecided(k, x)
    return out


def c06(ctx):
    sp = Spec(ctx)
    w = ctx.w

    def task(name, part):
        ob = Ob(ctx, part, "C06", RULE06)
        cls = sp.cls(name)
        d = sp.t[name]
        if d["extra"] == "patterned":
            pat(ob, name, cls)
            return
        for n, f in d["fields"].items():
            wire = f["wire"]
            t = sp.term(f["type"])
            vals = [("null", lambda: None, True)] + [(l, p, False) for l, p in FALSY + ODD] + [("a value", lambda f=f, n=n: absval(sp.sample(f["type"], name, n)), False)]
            mild = len(vals)
            vals += [(l, p, False) for l, p in field_probes(sp, t, w.pyd.info(cls).fields[n].term) if l not in {v[0] for v in vals} and "any" not in str(f["type"])]
            mild = {l for l, _, _ in vals[mild:]}
            for l, p, null in vals:
                def fn(p=p, t=t, n=n):
                    s = outcome(w, lambda: w.pyd.validate(t, p()))
                    if s[0] != "ok":
                        return None
                    if p() is not None and s[1] is None:
                        return None
                    o = outcome(w, lambda: sp.validate(cls, data_with(sp, name, n, p())))
                    if o[0] != "ok":
                        return None
                    return dumps(w, o[1]), s[1]

                def judge(run, out, null=null, l=l, f=f, wire=wire):
                    if out.kind == "raise":
                        return out.text()
                    if out.value is None:
                        return None
                    for how, x in out.value[0].items():
                        if null and not f.get("null_written"):
                            if wire in x and not f.get("required"):
                                return f"{how} writes null under {wire!r}"
                        elif wire not in x:
                            return f"{how} omits {wire!r} although its value is {l}"
                        elif l in ("not a number", "infinity"):
                            if "json" not in how and not isinstance(x.get(wire), (float, Inst)) and not isinstance(conc(x.get(wire)), float):
                                return f"{how} writes {show(x.get(wire))} under {wire!r} although its value is {l}"
                        elif not null and x.get(wire) is None:
                            return f"{how} writes null under {wire!r} although its value is {l}"
                        elif null and x.get(wire) is not None:
                            return f"{how} writes {show(x.get(wire))} under {wire!r} instead of null"
                        elif l not in mild and not same(x.get(wire), w.pyd.dump_value(out.value[1], {"mode": "json"} if "json" in how else {})):
                            return f"{how} writes {show(x.get(wire))} under {wire!r} although its value is {l}"
                    return None
                ob.run(f"{name}.{n} = {l}", fn, judge, where=f"{cls.qual}.{n}")
        if d["extra"] in ("extensible", "open"):
            for l, p in FALSY + ODD:
                def fn(p=p):
                    data = absval(sp.min(name))
                    data.set("x-extra", p())
                    return dumps(w, sp.validate(cls, data))

                def judge(run, out, l=l):
                    if out.kind == "raise":
                        return out.text()
                    for how, x in out.value.items():
                        if "x-extra" not in x:
                            return f"{how} omits an extension field whose value is {l}"
                    return None
                ob.run(f"{name}.x-extra = {l}", fn, judge, where=cls.qual)
        # everything absent: only nulls are left out
        def bare():
            o = sp.validate(cls, absval(sp.min(name)))
            return dumps(w, o)

        def judge(run, out):
            if out.kind == "raise":
                return out.text()
            given = sp.min(name)
            for how, x in out.value.items():
                for n, f in d["fields"].items():
                    must = f["wire"] in given or f.get("default") is not None or f.get("null_written")
                    if must and f["wire"] not in x:
                        return f"{how} omits {f['wire']!r}"
                    if not must and f["wire"] in x:
                        return f"{how} writes {f['wire']!r} although it was not given"
            return None
        ob.run(f"{name} with only its required fields", bare, judge, where=cls.qual)

    def pat(ob, name, cls):
        def fn():
            k = mk(R().newkey("entry"))
            v = sp.sample(sp.t[name]["fields"]["root"]["type"][2])
            o = sp.validate(cls, IDict([(k, absval(v))]))
            e = sp.validate(cls, IDict())
            return k, w.call(w.getattr(o, "model_dump"), [], {}), w.call(w.getattr(e, "model_dump"), [], {})

        def judge(run, out):
            if out.kind == "raise":
                return out.text()
            k, x, e = out.value
            if not isinstance(x, IDict) or list(x.keys_()) != [k] or conc(x.get(k)) is None:
                return f"an entry is written as {show(x)}"
            if not isinstance(e, IDict) or len(e):
                return f"an empty map is written as {show(e)}"
            return None
        ob.run(f"{name} entries", fn, judge, where=cls.qual)
    ctx.pmap(task, list(sp.t))


# ---------------------------------------------------------------------- C07
RULE07 = "the binding version is always written and defaults to the supported version"


def c07(ctx):
    sp = Spec(ctx)
    w = ctx.w
    names = [n for n, d in sp.t.items() if "binding_version" in d["fields"]]

    def task(name, part):
        ob = Ob(ctx, part, "C07", RULE07)
        cls = sp.cls(name)
        f = sp.t[name]["fields"]["binding_version"]
        wire = f["wire"]

        def dflt():
            o = sp.validate(cls, absval({k: v for k, v in sp.min(name).items() if k != wire}))
            return w.getattr(o, "binding_version"), dumps(w, o)

        def j1(run, out):
            if out.kind == "raise":
                return out.text()
            v, ds = out.value
            if conc(v) != f["default"]:
                return f"the default is {show(v)}, not {f['default']!r}"
            for how, x in ds.items():
                if wire not in x or conc(x.get(wire)) != f["default"]:
                    return f"{how} does not write the default version"
            return None
        ob.run(f"{name} default version", dflt, j1, where=cls.qual)

        def given():
            v = R().sym("version", [AStr(words([f["default"]])), AStr(~words([f["default"]]))])
            o = sp.validate(cls, absval({**sp.min(name)}))
            data = absval({k: x for k, x in sp.min(name).items()})
            data.set(wire, v)
            o = outcome(w, lambda: sp.validate(cls, data))
            if o[0] != "ok":
                return v, None
            return v, dumps(w, o[1])

        def j2(run, out):
            if out.kind == "raise":
                return out.text()
            v, ds = out.value
            if ds is None:
                return None if not truth(eq(v, f["default"])) else "the supported version is rejected"
            for how, x in ds.items():
                if wire not in x:
                    return f"{how} omits the version"
                if not truth(eq(x.get(wire), v)):
                    return f"{how} writes {show(x.get(wire))} instead of the given version"
            return None
        ob.run(f"{name} given version", given, j2, where=cls.qual)

        # a binding held by its bindings object and by a whole map
        proto = [(o, p) for o in sp.t if o.endswith("BindingsObject") for p, g in sp.t[o]["fields"].items() if g["type"][0] == "union" and g["type"][1][0] == ["model", name]]
        for o, p in proto:
            def held(o=o, p=p):
                x = sp.validate(sp.cls(o), IDict([(p, absval({k: v for k, v in sp.min(name).items() if k != wire}))]))
                return dumps(w, x)

            def j3(run, out, p=p):
                if out.kind == "raise":
                    return out.text()
                for how, x in out.value.items():
                    b = conc(x.get(p))
                    if not isinstance(b, IDict) or wire not in b or conc(b.get(wire)) != f["default"]:
                        return f"{how} does not write the default version"
                return None
            ob.run(f"{o}.{p} default version", held, j3, where=cls.qual)
    ctx.pmap(task, names)


# ---------------------------------------------------------------------- C03, C04
def keylang():
    return regex(r"[A-Za-z0-9_\-]+")


RULE03 = "a patterned object is accepted if and only if every key is made of ASCII letters, digits, '-' and '_'"


def c03(ctx):
    sp = Spec(ctx)
    w = ctx.w
    K = keylang()
    names = [n for n, d in sp.t.items() if d["extra"] == "patterned"]
    # every other root model of the package that is a map is patterned as well
    base = need(w, "PatternedRootModel", "asyncapi3.models.base_models", "asyncapi3.models")
    tasks = []
    for n in names:
        for pos in ("only", "first", "middle", "last", "20th of 40", "last of 70"):
            for how in ("validate", "construct"):
                if how == "construct" and pos not in ("only", "middle"):
                    continue
                tasks += [(n, pos, how, s) for s in ((0, 1) if pos in ("first", "middle", "last") else (0,))]
    # any key next to any other valid key: the two are kept apart by their first letter
    SIDE = regex(r"[a-mA-M0-4_].*", re.S)

    def task(item, part):
        name, pos, how, side = item
        ob = Ob(ctx, part, "C03", RULE03)
        cls = sp.cls(name)
        item = sp.t[name]["fields"]["root"]["type"][2]
        val = sp.sample(item)
        st = {}

        def entry(what):
            i = R().choose([f"{what}: an object", f"{what}: a reference"], (0, 1)) if item[0] == "union" and ["model", "Reference"] in item[1] else 0
            return absval({"$ref": "#/components/x/y"}) if i else absval(val)

        def fn():
            mine, others = (ALL, K) if pos == "only" or " of " in pos else (SIDE, K - SIDE) if side else (ALL - SIDE, K & SIDE)
            if " of " in pos:
                mine = words(["good", "b c", "", "a.b", "b\n", "\u00e9"])
            k = R().sym("key", [AStr(mine)])
            pairs = [(k, entry("entry"))]
            if pos in ("middle", "last"):
                pairs.insert(0, (R().sym("earlier key", [AStr(others - lit("a") - lit("z"))]), entry("earlier entry")))
            if pos in ("middle", "first"):
                pairs.append(("z" if pos == "middle" and not side else "a" if pos == "middle" else R().sym("later key", [AStr(others)]), entry("later entry")))
            if " of " in pos:
                at, n = (19, 40) if pos.startswith("20") else (69, 70)
                pairs = [(f"key-{i}", absval({"$ref": "#/a/b"})) for i in range(at)] + pairs + [(f"key-{i}", absval({"$ref": "#/a/b"})) for i in range(at + 1, n)]
            st["k"] = k
            d = IDict()
            for a, b in pairs:
                d.pairs.append([a, b])
                if isinstance(a, str):
                    d.idx[a] = len(d.pairs) - 1
            if how == "validate":
                return sp.validate(cls, d)
            return w.instantiate(cls, [d], {})

        def judge(run, out):
            dom = rest(run, st["k"])
            if out.kind == "return":
                bad = dom & ~K
                if not bad.empty():
                    return f"the key {bad.example()!r} is accepted ({pos} key)"
                o = out.value
                if not isinstance(o, Inst):
                    return f"validation returns {show(o)}"
                root = conc(w.getattr(o, "root"))
                if not isinstance(root, IDict) or st["k"] not in root:
                    return "the entry is lost"
                return None
            good = dom & K
            if not good.empty():
                return f"the key {good.example()!r} is rejected ({pos} key): {out.text()}"
            return None if is_value_error(w, out.exc) else None
        ob.run(f"{name} {pos} key ({how}{', other side' if side else ''})", fn, judge, where=cls.qual, budget=1, max_paths=600)
    ctx.pmap(task, tasks)


class Rest:
    """What a symbolic string may still be."""

    def __init__(self, parts):
        self.parts = [p for p in parts if p[0].nonempty_len(p[1], p[2])]

    def __and__(self, d):
        return Rest([(p[0] & d, p[1], p[2]) for p in self.parts])

    def empty(self):
        return not self.parts

    def example(self):
        return self.parts[0][0].example(self.parts[0][1], self.parts[0][2]) if self.parts else None


def rest(run, sym):
    dom = run.dom.get(sym.name)
    if dom is None or any(a[0] != "str" for a in dom):
        raise Undecided("no longer a string")
    return Rest([(a[1], a[2], a[3]) for a in dom])


RULE04 = "unknown fields are accepted exactly as the kind of object (closed, extensible, open) allows"


def c04(ctx):
    sp = Spec(ctx)
    w = ctx.w
    EXT = regex(r"x-[A-Za-z0-9_.\-]+")
    MAYBE = regex(r"x-[\w.\-]+")   # non-ASCII word characters: either way
    names = [n for n, d in sp.t.items() if d["extra"] != "patterned"]

    def task(item, part):
        name, pos = item
        ob = Ob(ctx, part, "C04", RULE04)
        cls = sp.cls(name)
        d = sp.t[name]
        kind = d["extra"]
        known = words([f["wire"] for f in d["fields"].values()] + list(d["fields"]))
        for n, fm in w.pyd.info(cls).fields.items():
            if fm.exclude is True:
                known = known | words([n] + [a for a in (fm.val_alias,) if isinstance(a, str)])
        st = {}

        def fn():
            k = R().sym("name", [AStr(~known)])
            st["k"] = k
            data = absval(sp.min(name))
            at, others = pos if isinstance(pos, tuple) else (pos, None)
            others = [others] if isinstance(others, str) else [f"x-e{i}" for i in range(others)] if others else None
            if at == "last" and kind == "extensible":
                for o in others or ["x-first"]:
                    data.set(o, 1)
            data.pairs.append([k, value() if others is None else "v"])
            if at == "first" and kind == "extensible":
                for o in others or ["x-last"]:
                    data.set(o, 1)
            return sp.validate(cls, data)

        def value():
            return R().sym("value", [AStr(), core.NONE, AInt(), AVal("a map", lambda: IDict([("a", 1)]))])

        def judge(run, out):
            dom = rest(run, st["k"])
            if out.kind == "return":
                if kind == "closed":
                    return f"the unknown field {dom.example()!r} is accepted"
                if kind == "extensible":
                    bad = dom & ~MAYBE
                    if not bad.empty():
                        return f"the unknown field {bad.example()!r} is accepted"
                o = out.value
                ex = o.extra if isinstance(o, Inst) else None
                if not isinstance(ex, IDict) or st["k"] not in ex:
                    return "the unknown field is dropped"
                return None
            if isinstance(pos, tuple) and isinstance(pos[1], str) and (lit(pos[1]) & EXT).empty:
                return None
            if kind == "open":
                return f"the field {dom.example()!r} is rejected: {out.text()}"
            if kind == "extensible":
                good = dom & EXT
                if not good.empty():
                    return f"the extension field {good.example()!r} is rejected: {out.text()}"
            return None
        txt = pos if isinstance(pos, str) else f"{pos[0]}, with {pos[1]!r}" if isinstance(pos[1], str) else f"{pos[0]}, with {pos[1]} extensions"
        ob.run(f"{name} unknown field {txt}", fn, judge, where=cls.qual, max_paths=600)

        if pos == "last":
            for nm in ("x-ok", "x-a.b-c_d", "x-", "X-upper", "plain", "x-new line\n", "x-ok\n", " x-ok", "x_ok", "x-ok!", "_x-ok"):
                assign(ob, name, cls, kind, nm)

    def assign(ob, name, cls, kind, nm):
        if kind == "closed" or nm.startswith("_"):
            want = kind != "closed" and None
            if nm.startswith("_"):
                return
            want = False
        elif kind == "open":
            want = True
        else:
            want = not (lit(nm) & EXT).empty

        def fn():
            o = sp.validate(cls, absval(sp.min(name)))
            w.setattr(o, nm, "v")
            return o

        def judge(run, out):
            if out.kind == "return":
                if not want:
                    return f"the unknown field {nm!r} may be assigned"
                if not isinstance(out.value.extra, IDict) or nm not in out.value.extra:
                    return f"the assigned field {nm!r} is not stored as an extra field"
                return None
            return f"assigning the field {nm!r} is rejected: {out.text()}" if want else None
        ob.run(f"{name} assigning {nm!r}", fn, judge, where=cls.qual)
    extra = w.words("asyncapi3.models.base_models", "asyncapi3.models.helpers", ok=lambda x: 2 < len(x) < 40 and x.isprintable()) + w.sizes("asyncapi3.models.base_models", hi=600)[:3]
    ext = [n for n in names if sp.t[n]["extra"] == "extensible"]
    ctx.pmap(task, [(n, p) for n in names for p in ("last", "first")] + [(n, (p, x)) for n in ext for x in extra for p in ("last", "first")])


# ---------------------------------------------------------------------- C01
RULE01 = "assignment is validated like construction, nested instances are validated again, both names of a field are read"


def all_models(w, sp):
    out = []
    for n, cs in sorted(classes_by_name(w).items()):
        for c in cs:
            if w.pyd.is_model(c) and c not in out and c.module.name.startswith("asyncapi3"):
                out.append(c)
    return out


def breaks(sp, v):
    """Make a held value invalid in place; False if it is no container."""
    from doc import members
    v = conc(v)
    if isinstance(v, Inst):
        i = sp.w.pyd.info(v.cls)
        if i.root:
            return breaks(sp, v.d.get("root"))
        for n, fm in i.fields.items():
            if not any(m == ANY for m in members(fm.term)[1]) and n in v.d:
                v.d.set(n, foreign(sp))
                return True
        return False
    if isinstance(v, IDict):
        v.set("entry2", foreign(sp))
        return True
    if isinstance(v, list):
        v.append(foreign(sp))
        return True
    return False


def c01(ctx):
    sp = Spec(ctx)
    w = ctx.w

    def task(name, part):
        ob = Ob(ctx, part, "C01", RULE01)
        cls = sp.cls(name)
        d = sp.t[name]
        root = d["extra"] == "patterned"

        # an instance is validated again: the result is not simply the same instance, and a
        # broken instance is rejected
        def again():
            o = sp.validate(cls, absval(sp.min(name)))
            return o, sp.validate(cls, o)

        def j(run, out):
            if out.kind == "raise":
                return f"validating a valid instance again fails: {out.text()}"
            o, p = out.value
            return "an instance given to the model is trusted as it is" if p is o else None
        ob.run(f"{name} revalidates", again, j, where=cls.qual)
        for n, f in d["fields"].items():
            t = sp.term(f["type"])
            if t == ANY or t.k == "union" and ANY in t.a[0]:
                bads = []
            else:
                bads = [("an object of a foreign class", lambda: foreign(sp))]
            for l, p in bads:
                def fn(n=n, p=p):
                    o = sp.validate(cls, absval(sp.min(name)) if root else data_with(sp, name, n, absval(sp.sample(d["fields"][n]["type"], name, n))))
                    o.d.set(n, IDict([("entry", p())]) if root else p())
                    if o.fset is not None:
                        o.fset.add(n)
                    return sp.validate(cls, o)
                ob.run(f"{name} holding a broken {n}", fn, lambda run, out: None if out.kind == "raise" else "a broken nested instance is accepted without validation", where=cls.qual)
            if f["type"] == ["any"]:
                continue
            probes = scalars() + [("an empty map", lambda: IDict()), ("an empty list", lambda: IList([])), ("a foreign object", lambda: foreign(sp)),
                                  ("a valid value", lambda f=f, n=n: absval(sp.sample(f["type"], name, n)))]
            if root:
                probes += [("a map with a bad key", lambda f=f: IDict([("bad key", absval(sp.sample(f["type"][2])))]))]
            for l, p in probes:
                def fn(n=n, p=p, f=f):
                    v = p()
                    c = outcome(w, lambda: sp.validate(cls, v if root else data_with(sp, name, n, v)))
                    o = sp.validate(cls, absval(sp.min(name)) if root else data_with(sp, name, n, absval(sp.sample(f["type"], name, n))))
                    a = outcome(w, lambda: w.setattr(o, n, v))
                    return c, a, (fieldval(sp, c[1], n) if c[0] == "ok" else None), fieldval(sp, o, n)

                def judge(run, out, n=n, l=l):
                    if out.kind == "raise":
                        return out.text()
                    c, a, cv, av = out.value
                    if "crash" in (c[0], a[0]):
                        return None
                    if c[0] == "ok" and a[0] == "bad":
                        return f"assigning {l} is rejected, constructing with it is not"
                    if c[0] == "bad" and a[0] == "ok":
                        return f"{l} is rejected by the constructor but may be assigned"
                    if c[0] == "ok" and not same(cv, av):
                        return f"assigning {l} stores {show(av)} instead of {show(cv)}"
                    return None
                ob.run(f"{name}.{n} = {l}", fn, judge, where=f"{cls.qual}.{n}")
            if "any" not in str(f["type"]):
                def fn(n=n, f=f):
                    o = sp.validate(cls, absval(sp.min(name)) if root else data_with(sp, name, n, absval(sp.sample(f["type"], name, n))))
                    v = fieldval(sp, o, n)
                    if not breaks(sp, v):
                        return None
                    return outcome(w, lambda: w.setattr(o, n, v))
                ob.run(f"{name}.{n} = the value it holds, changed in place to a bad one", fn, lambda run, out: out.text() if out.kind == "raise" else
                       "it is accepted without validation" if out.value is not None and out.value[0] == "ok" else None, where=f"{cls.qual}.{n}")
            if not root and n != f["wire"]:
                def fn(n=n, f=f):
                    v = absval(sp.sample(f["type"], name, n))
                    x = sp.validate(cls, data_with(sp, name, n, absval(sp.sample(f["type"], name, n))))
                    o = sp.validate(cls, data_with(sp, name, n, v, key=n))
                    return fieldval(sp, o, n), fieldval(sp, x, n)

                def judge(run, out, n=n):
                    if out.kind == "raise":
                        return f"input under the Python name {n!r} is rejected: {out.text()}"
                    return None if same(*out.value) else f"input under the Python name {n!r} is read as {show(out.value[0])}"
                ob.run(f"{name}.{n} by its Python name", fn, judge, where=f"{cls.qual}.{n}")

                def con(n=n, f=f):
                    kw = {k: absval(v) for k, v in sp.base(name, n).items()}
                    kw[n] = absval(sp.sample(f["type"], name, n))
                    o = w.instantiate(cls, [], kw)
                    x = sp.validate(cls, data_with(sp, name, n, absval(sp.sample(f["type"], name, n))))
                    return fieldval(sp, o, n), fieldval(sp, x, n)
                ob.run(f"{name}({n}=...)", con, judge, where=f"{cls.qual}.{n}")

    def other(cls, part):
        """Model classes that are not in the table: configuration only."""
        ob = Ob(ctx, part, "C01", RULE01)

        def judge(run, out):
            c = w.pyd.info(cls).config
            if not truth(c.get("validate_assignment") or False):
                return "assignments are not validated"
            if c.get("revalidate_instances") != "always":
                return "nested instances are not validated again"
            if not truth(c.get("validate_by_name") or c.get("populate_by_name") or False) and any(fm.val_alias for fm in w.pyd.info(cls).fields.values()):
                return "fields are not read under their Python names"
            return None
        ob.run(f"{cls.name} configuration", lambda: None, judge, where=cls.qual)
    # objects with rules over several fields: from every accepted combination, every
    # assignment is accepted exactly when constructing with the changed values is
    import rules
    ctx.sp = sp
    rs = [rules.scheme(), rules.flows(), rules.channel(), rules.example(), rules.corr(), rules.contact()] + rules.c12_rules()

    def combos(it, part):
        rules.check_rule(ctx, part, "C01", RULE01, it[0], it[1], 0, 1 if ctx.thorough else 0, diff=True)

    def full(name, part):
        """Every field of a richly filled object."""
        ob = Ob(ctx, part, "C01", RULE01)
        cls = sp.cls(name)
        d = sp.t[name]
        rich = dict(sp.min(name))
        for n, f in d["fields"].items():
            rich.setdefault(f["wire"], sp.sample(f["type"], name, n))
        for n, f in d["fields"].items():
            for l, p in [("null", lambda: None), ("a foreign object", lambda: foreign(sp)), ("any string", lambda: R().sym("value", [AStr()])), ("an empty map", lambda: IDict()), ("an empty list", lambda: IList([])),
                         ("a valid value", lambda f=f, n=n: absval(sp.sample(f["type"], name, n)))]:
                def fn(n=n, f=f, p=p):
                    v = p()
                    data = absval(rich)
                    data.set(f["wire"], v)
                    c = outcome(w, lambda: sp.validate(cls, data))
                    o = sp.validate(cls, absval(rich))
                    a = outcome(w, lambda: w.setattr(o, n, v))
                    return c, a, (fieldval(sp, c[1], n) if c[0] == "ok" else None), fieldval(sp, o, n)

                def judge(run, out, n=n, l=l):
                    if out.kind == "raise":
                        return out.text()
                    c, a, cv, av = out.value
                    if "crash" in (c[0], a[0]):
                        return None
                    if c[0] != a[0]:
                        return f"{l} is {'accepted' if c[0] == 'ok' else 'rejected'} by the constructor but {'accepted' if a[0] == 'ok' else 'rejected'} by assignment"
                    return f"assigning {l} stores {show(av)} instead of {show(cv)}" if c[0] == "ok" and not same(cv, av) else None
                ob.run(f"{name}.{n} = {l} (all fields set)", fn, judge, where=f"{cls.qual}.{n}")

    known = {id(sp.cls(n)) for n in sp.t}
    rest_ = [c for c in all_models(w, sp) if id(c) not in known]
    items = [("combos", (r, i)) for r in rs for i in range(len(r.fields[0][2]))] + [("task", n) for n in sp.t] + \
        [("full", n) for n, d in sp.t.items() if d["extra"] != "patterned" and not sp.rules(n)] + [("other", c) for c in rest_]
    ctx.pmap(lambda it, part: {"combos": combos, "task": task, "full": full, "other": other}[it[0]](it[1], part), items)


# ---------------------------------------------------------------------- C02
RULE02 = "map[key] = value accepts exactly what the constructor accepts, stores the validated value, and leaves the map alone otherwise"


def c02(ctx):
    sp = Spec(ctx)
    w = ctx.w
    names = [n for n, d in sp.t.items() if d["extra"] == "patterned"]

    def values(name):
        item = sp.t[name]["fields"]["root"]["type"][2]
        t = sp.term(item)
        out = [(l, p) for l, p in shapes(sp, t)[:6]]
        out += [("a $ref map", lambda: IDict([("$ref", R().sym("ref", [AStr()]))])), ("null", lambda: None), ("any string", lambda: R().sym("value", [AStr()])),
                ("any integer", lambda: R().sym("value", [AInt()])), ("a foreign object", lambda: foreign(sp)), ("an empty list", lambda: IList([])),
                ("an empty map", lambda: IDict())]
        c = t.a[0][0].a[0]
        req = [n for n, f in sp.t[c.name]["fields"].items() if f["type"] != ["any"]]
        if req:
            def broken():
                o = sp.validate(c, absval(sp.min(c.name)))
                o.d.set(req[0], foreign(sp))
                o.fset.add(req[0])
                return o
            out.append(("a broken instance", broken))
        return out

    def snapshot(o):
        r = conc(o.d.get("root"))
        return [(k, v) for k, v in r.live()]

    def task(name, part):
        ob = Ob(ctx, part, "C02", RULE02)
        cls = sp.cls(name)
        good = sp.sample(sp.t[name]["fields"]["root"]["type"][2])
        K = [("any key", lambda: R().sym("key", [AStr(ALL)])), ("an integer key", lambda: 5), ("a null key", lambda: None), ("an existing key", lambda: "old"), ("a bytes key", lambda: b"abc"), ("a bad bytes key", lambda: b"a.b")]
        cases = [(kl, kp, vl, vp) for kl, kp in K[:1] for vl, vp in values(name)] + \
                [(kl, kp, "a valid value", lambda: absval(good)) for kl, kp in K[1:]] + \
                [("an existing key", K[3][1], "null", lambda: None)]
        for kl, kp, vl, vp in cases:
            for hist in ((), ("other",)) if vl == "null" or kl != "any key" else ((),):
                def fn(kp=kp, vp=vp, hist=hist):
                    k, v = kp(), vp()
                    d = IDict()
                    d.pairs.append([k, v])
                    if isinstance(k, str):
                        d.idx[k] = 0
                    c = outcome(w, lambda: sp.validate(cls, d))
                    ck, cv = (conc(c[1].d.get("root")).live() or [(k, None)])[0] if c[0] == "ok" else (k, None)
                    o = sp.validate(cls, IDict([("old", absval(good))]))
                    for h in hist:
                        w.setitem(o, h, absval(good))
                    before = snapshot(o)
                    a = outcome(w, lambda: w.setitem(o, k, v))
                    return ck, c, cv, a, before, snapshot(o)

                def judge(run, out, kl=kl, vl=vl):
                    if out.kind == "raise":
                        return out.text()
                    k, c, cv, a, before, after = out.value
                    if a[0] == "crash":
                        return f"map[{kl}] = {vl} raises {core.exc_name(a[1].exc)}" if c[0] == "bad" else f"map[{kl}] = {vl} crashes"
                    ex = ""
                    if isinstance(k, Sym):
                        ex = f" (key {rest(run, k).example()!r})"
                    if c[0] == "ok" and a[0] == "bad":
                        return f"map[{kl}] = {vl} is rejected although the constructor accepts it{ex}"
                    if c[0] == "bad" and a[0] == "ok":
                        return f"map[{kl}] = {vl} is accepted although the constructor rejects it{ex}"
                    if a[0] == "bad":
                        if len(before) != len(after) or any(x[0] is not y[0] or x[1] is not y[1] for x, y in zip(before, after)):
                            return f"the rejected map[{kl}] = {vl} changes the map{ex}"
                        return None
                    d = IDict(after)
                    if k not in d:
                        return f"map[{kl}] = {vl} does not store the entry"
                    if not same(d.get(k), cv):
                        return f"map[{kl}] = {vl} stores {show(d.get(k))} instead of {show(cv)}"
                    if not all(kk in d and (truth(eq(kk, k)) or d.get(kk) is vv) for kk, vv in before) or len(d) > len(before) + 1:
                        return f"map[{kl}] = {vl} changes other entries"
                    return None
                ob.run(f"{name}[{kl}] = {vl}{' after another assignment' if hist else ''}", fn, judge, where=cls.qual, max_paths=400)
    ctx.pmap(task, names)


# ---------------------------------------------------------------------- C25
RULE25 = "a rejected assignment raises and leaves values, extra fields and set-field information as they were"


def frozen(v, seen=()):
    """The whole content of a value, for comparison with its later content."""
    v = conc(v)
    if isinstance(v, (Inst, IDict, list, core.ISet)):
        if any(v is x for x in seen):
            return ("again",)
        seen = seen + (v,)
    if isinstance(v, Inst):
        return ("inst", v, [(k, frozen(x, seen)) for k, x in v.d.live()], None if v.extra is None else [(k, frozen(x, seen)) for k, x in v.extra.live()],
                None if v.fset is None else sorted(map(str, v.fset)))
    if isinstance(v, IDict):
        return ("map", v, [(k, frozen(x, seen)) for k, x in v.live()])
    if isinstance(v, list):
        return ("list", v, [frozen(x, seen) for x in v])
    if isinstance(v, core.ISet):
        return ("set", v, [frozen(x, seen) for x in v])
    return ("value", v)


def state(o):
    return frozen(o)


def changed(a, b, top=True):
    """What differs between two states, or None."""
    if a[0] != b[0]:
        return "a value"
    if a[0] in ("again",):
        return None
    if a[0] == "value":
        x, y = conc(a[1]), conc(b[1])
        return None if x is y or (type(x) is type(y) and truth(eq(x, y))) else "a value"
    if a[1] is not b[1]:
        return "a value"

    def pairs(x, y):
        if x is None or y is None:
            return None if (x or []) == (y or []) else "keys"
        if len(x) != len(y):
            return "keys"
        y = dict((str(k), v) for k, v in y)
        for k, v in x:
            if str(k) not in y:
                return "keys"
            c = changed(v, y[str(k)], False)
            if c:
                return f"{k}: {c}"
        return None
    if a[0] == "inst":
        for i, what in ((2, "its field values"), (3, "its extra fields")):
            c = pairs(a[i], b[i])
            if c:
                return f"{what} ({c})"
        if (a[4] or []) != (b[4] or []):
            return "its set-field information"
        return None
    if a[0] == "map":
        c = pairs(a[2], b[2])
        if c is None and [str(k) for k, _ in a[2]] != [str(k) for k, _ in b[2]]:
            c = "the order"
        return f"its entries ({c})" if c else None
    if len(a[2]) != len(b[2]):
        return "its items"
    return next((c for c in (changed(x, y, False) for x, y in zip(a[2], b[2])) if c), None)


def same_state(a, b):
    return changed(a, b)


def c25(ctx):
    sp = Spec(ctx)
    w = ctx.w

    def task(name, part):
        ob = Ob(ctx, part, "C25", RULE25)
        cls = sp.cls(name)
        d = sp.t[name]
        root = d["extra"] == "patterned"

        def attempt(key, mkobj, attr, val, fail):
            """fail: let an additional rule of the class reject the object afterwards."""
            st = {}

            def fn():
                o = mkobj()
                before = state(o)
                v = val()
                if fail:
                    w.hooks["pyd:after"] = lambda c, i: (_ for _ in ()).throw(Bad(("value_error", "rejected by a rule"))) if i is o or isinstance(i, Inst) and i.cls is o.cls else None
                try:
                    a = outcome(w, lambda: w.setattr(o, attr, v))
                finally:
                    w.hooks.pop("pyd:after", None)
                return a, before, state(o)

            def judge(run, out):
                if out.kind == "raise":
                    return out.text()
                a, b, c = out.value
                if a[0] == "ok":
                    return "the rejection is not raised" if fail else None
                s = same_state(b, c)
                return f"the rejected assignment changes {s}" if s else None
            ob.run(key, fn, judge, where=cls.qual)

        def minimal():
            return sp.validate(cls, absval(sp.min(name)))
        rule_hook = d["extra"] in ("extensible", "closed", "patterned")
        for n, f in d["fields"].items():
            def full(n=n, f=f):
                return sp.validate(cls, absval(sp.min(name)) if root else data_with(sp, name, n, absval(sp.sample(f["type"], name, n))))
            good = (lambda f=f, n=n: absval(sp.sample(f["type"], name, n)))
            for what, mkobj in (("set", full), ("unset", minimal)):
                if rule_hook:
                    attempt(f"{name}.{n} ({what}) rejected by a rule", mkobj, n, good, True)
                attempt(f"{name}.{n} ({what}) given a foreign object", mkobj, n, lambda: foreign(sp), False)
                attempt(f"{name}.{n} ({what}) given null", mkobj, n, lambda: None, False)
            if root:
                attempt(f"{name}.root given a bad key", full, n, lambda f=f: IDict([("good", absval(sp.sample(f["type"][2]))), ("bad key", absval(sp.sample(f["type"][2])))]), False)
            if sp.rules(name):
                for l, p in scalars() + [("an empty map", lambda: IDict())]:
                    attempt(f"{name}.{n} given {l}", full, n, p, False)
        if d["extra"] == "extensible":
            def withx():
                x = absval(sp.min(name))
                x.set("x-old", 1)
                return sp.validate(cls, x)
            for mkobj, what in ((minimal, ""), (withx, " next to another extension")):
                attempt(f"{name}.badname{what}", mkobj, "badname", lambda: 1, False)
                attempt(f"{name}.x-new{what} rejected by a rule", mkobj, "x-new", lambda: 1, True)
            attempt(f"{name}.x-old rejected by a rule", withx, "x-old", lambda: 2, True)
        elif not root:
            attempt(f"{name}.badname", minimal, "badname", lambda: 1, False)
    import rules
    ctx.sp = sp
    deep = [(r, i) for r in [rules.scheme(), rules.flows(), rules.channel(), rules.example(), rules.corr(), rules.contact()] + rules.c12_rules() for i in range(len(r.fields[0][2]))]
    ctx.pmap(lambda it, part: task(it, part) if isinstance(it, str) else rules.check_rule(ctx, part, "C25", RULE25, it[0], it[1], 1, 1, rollback=True), deep + list(sp.t))


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C25": c25}
