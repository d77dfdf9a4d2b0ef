"""Round trips, equality and copies, JSON text against data, order of the data: C26, C34, C35, C36."""
from __future__ import annotations

import itertools

import core
import lang
import pyd
from core import R, IList, IDict, PyRaise, AnchorLost, conc, show, truth, eq
from lang import words
from objs import Inst
from std import UrlV
from models import Spec, Ob, absval, outcome, data_with, frozen, changed, same, foreign, field_probes
from more import HOW, near, largest, same_content, containers, full, ordered


XNAME = lang.regex(r"x-[A-Za-z0-9_.\-]+")


SPECIAL = ("root", "ref", "model_config", "x-a", "description", "0", "None", "true", "Entry")


def say(run, out):
    return out.text() if out.kind == "raise" else out.value


def json_text(v):
    t = pyd.JsonText("json")
    t.data = v
    return t


FREE = (2.0, -1.0, 0.0, 1e300, 10 ** 20, 0, True, False, "2.0", "1", "true", "null", "", " a ", "a\n", "A", "2020-01-01", "http://Example.com", "#/a", [2.0, 1, True], {"a": 2.0, "b": None, "": False},
        [], {}, [[], [1, 1], ["b", "a", "b"]], {"b": {"$ref": 1, "x-a": []}, "a": {"type": None}})


def cases(sp, name, probes=True):
    """(text, data builder, python field name or None) covering a class."""
    d = sp.t[name]
    cls = sp.cls(name)
    yield "minimal", lambda: absval(sp.min(name)), None
    yield "full", lambda: absval(largest(sp, name)), None
    if d["extra"] == "patterned":
        yield "empty", lambda: IDict(), None
        g, r, q = sp.sample(d["fields"]["root"]["type"][2]), {"$ref": "#/components/x/y"}, {"$ref": "other.yaml"}
        for k in SPECIAL:
            yield f"with the entry {k!r} alone", lambda k=k: absval({k: g}), None
            yield f"with the entry {k!r} last", lambda k=k: absval({"entry": g, k: g}), None
        for vs in itertools.product((("an object", g), ("a reference", r), ("an empty map", {})), repeat=3):
            yield f"with {', '.join(t for t, _ in vs)}", lambda vs=vs: absval(dict(zip("bca", [x for _, x in vs]))), None
        yield "with four entries", lambda: absval({"b": g, "d": r, "a": q, "c": g}), None
    for t, x in near(sp, name):
        yield t, lambda x=x: absval(x), None
    many = [12] + sp.w.sizes("asyncapi3.models.base_models", "asyncapi3.models.helpers", "asyncapi3.models.asyncapi", cls.module.name)
    for m in many:
        if d["extra"] == "patterned":
            yield f"with {m + 1} entries", lambda m=m: absval({f"e{i}": g if i % 3 else r for i in range(m, -1, -1)}), None
        for n, f in d["fields"].items():
            x = sp.sample(f["type"], name, n)
            if isinstance(x, list) and x:
                yield f"{n} with {m + 1} items", lambda n=n, x=x, m=m: data_with(sp, name, n, absval((x * (m + 1))[:m + 1])), n
            elif isinstance(x, dict) and x and d["extra"] != "patterned" and "dict" in str(f["type"]):
                yield f"{n} with {m + 1} entries", lambda n=n, x=x, m=m: data_with(sp, name, n, absval({**x, **{f"e{i}": next(iter(x.values())) for i in range(m)}})), n

    def extended(base, lng):
        x = absval(base)
        x.pairs.append([R().sym("name", [core.AStr(lng)]), R().sym("value", [core.AStr(), core.NONE, core.AInt(), core.AVal("a map", lambda: absval({"$ref": "#/a", "b": [None, {}]}))])])
        return x
    if d["extra"] in ("extensible", "open"):
        lng = XNAME if d["extra"] == "extensible" else ~words([f["wire"] for f in d["fields"].values()] + list(d["fields"]) + ["root"])
        for t, base in (("minimal", sp.min(name)), ("full", {k: v for k, v in largest(sp, name).items() if k != "x-extra"})):
            yield f"{t} with any {'extension' if d['extra'] == 'extensible' else 'further'} field", lambda base=base, lng=lng: extended(base, lng), None
        for v in FREE:
            yield f"with an extension holding {v!r}", lambda v=v: absval({**sp.min(name), "x-free": v}), None
    for n, f in d["fields"].items():
        fm = sp.w.pyd.info(cls).fields.get(n)
        if fm is None:
            raise AnchorLost(f"{name}.{n} is gone")
        if "any" in str(f["type"]) and d["extra"] != "patterned":
            for v in FREE:
                for t, x in (("", v), ("a list of ", [v]), ("a map to ", {"a": v})):
                    yield f"{n} = {t}{v!r}", lambda n=n, x=x: data_with(sp, name, n, absval(x)), n
        for l, p in field_probes(sp, sp.term(f["type"]), fm.term):
            if d["extra"] == "patterned":
                yield f"with {l}", p, None
            else:
                yield f"{n} = {l}", lambda p=p, n=n: data_with(sp, name, n, p()), n
        if d["extra"] != "patterned" and "any" in str(f["type"]):
            yield f"{n} nested", lambda n=n: data_with(sp, name, n, absval({"a": [1, {"b": []}, [], {}, ""], "c": None, "": 0})), n


def plain_data(v, depth=0):
    """JSON data only: no model instances, URLs, sets."""
    v = conc(v)
    if isinstance(v, IDict):
        return all(isinstance(conc(k), str) or core.kind(k) == "str" for k in v.keys_()) and all(plain_data(x) for x in v.vals_())
    if isinstance(v, list):
        return all(plain_data(x) for x in v)
    if isinstance(v, float):
        return v == v and v not in (float("inf"), float("-inf"))
    return v is None or core.kind(v) in ("str", "int", "bool", "float")


def order(sp):
    return sorted(sp.t, key=lambda n: -len(sp.t[n]["fields"]))


def omitted(w, v):
    """A copy of the value in which optional fields that are null hold their default, as if left out."""
    v = w.std.copy(v, True, plain=True)
    for x in containers(v).values():
        if isinstance(x, Inst) and w.pyd.is_model(x.cls):
            for n, fm in w.pyd.info(x.cls).fields.items():
                if not fm.required and n in x.d.idx and conc(x.d.get(n)) is None:
                    x.d.set(n, w.pyd.default(fm))
    return v


# ---------------------------------------------------------------------- C26
RULE26 = "parsing what an object is serialised to gives an equal object"


def c26(ctx):
    sp = Spec(ctx)
    w = ctx.w

    def task(name, part):
        ob = Ob(ctx, part, "C26", RULE26)
        cls = sp.cls(name)
        for l, p, n in cases(sp, name):
            free = n is not None and "any" in str(sp.t[name]["fields"][n]["type"])
            for how, m, kw in [h for h in HOW if "exclude_none" not in h[0]]:
                def fn(p=p, m=m, kw=kw, free=free):
                    x = p()
                    if free and not plain_data(x):
                        return None
                    a = outcome(w, lambda: sp.validate(cls, x))
                    if a[0] != "ok":
                        return None
                    o = a[1]
                    x = w.call(w.getattr(o, m), [], dict(kw))
                    if m == "model_dump_json":
                        r = outcome(w, lambda: w.call(w.getattr(cls, "model_validate_json"), [x], {}))
                    else:
                        r = outcome(w, lambda: sp.validate(cls, x))
                    x = getattr(x, "data", x)
                    if r[0] != "ok":
                        return f"its output {show(x)} is rejected: {r[1]}"
                    if not truth(w.equal(omitted(w, o), r[1])):
                        return f"parsing its output {show(x)} gives another object"
                    return None
                ob.run(f"{name} {l}: {how}", fn, say, where=cls.qual)
    ctx.pmap(task, order(sp))


# ---------------------------------------------------------------------- C34
RULE34 = "objects are equal exactly when their content is, and copies are equal and independent"


def differ(w, a, b):
    """Do two stored values differ (by content)?"""
    a, b = conc(a), conc(b)
    if isinstance(a, Inst) and isinstance(b, Inst):
        if a.cls is not b.cls or not w.pyd.is_model(a.cls):
            return a is not b
        for n in w.pyd.info(a.cls).fields:
            if differ(w, w.getattr(a, n), w.getattr(b, n)):
                return True
        return differ(w, a.extra or IDict(), b.extra or IDict())
    if isinstance(a, IDict) and isinstance(b, IDict):
        if len(a) != len(b):
            return True
        for k, v in a.live():
            i = b.find(k)
            if i is None or differ(w, v, b.pairs[i][1]):
                return True
        return False
    if isinstance(a, list) and isinstance(b, list):
        return len(a) != len(b) or any(differ(w, x, y) for x, y in zip(a, b))
    if isinstance(a, UrlV) and isinstance(b, UrlV):
        return a.t.name != b.t.name or not truth(eq(a.s, b.s))
    return not truth(eq(a, b))


COPIES = [("model_copy()", False, lambda w, o: w.call(w.getattr(o, "model_copy"), [], {})),
          ("model_copy(deep=True)", True, lambda w, o: w.call(w.getattr(o, "model_copy"), [], {"deep": True})),
          ("copy.copy()", False, lambda w, o: w.std.copy(o, False)),
          ("copy.deepcopy()", True, lambda w, o: w.std.copy(o, True))]


def c34(ctx):
    sp = Spec(ctx)
    w = ctx.w

    def task(name, part):
        ob = Ob(ctx, part, "C34", RULE34)
        cls = sp.cls(name)
        d = sp.t[name]

        def equal(a, b, want):
            for x, y in ((a, b), (b, a)):
                if truth(w.equal(x, y)) != want:
                    return "not equal" if want else "equal"
                if truth(w.call(w.getattr(x, "__eq__"), [y], {})) != want:
                    return "not equal" if want else "equal"
            return None

        def make(p):
            a = outcome(w, lambda: sp.validate(cls, p()))
            return a[1] if a[0] == "ok" else None
        def edited(o, q, before, n):
            """Assigning to the copy leaves the original alone."""
            if d["extra"] == "patterned":
                return None
            names = [n] if n is not None else []
            for m in names:
                v = w.getattr(o, m)
                outcome(w, lambda: w.setattr(q, m, None if conc(v) is not None else absval(sp.sample(d["fields"][m]["type"], name, m))))
            if d["extra"] != "closed":
                outcome(w, lambda: w.setattr(q, "x-of-the-copy", 1))
            c = changed(before, frozen(o))
            return f"assigning to a field of the copy changes {c} of the original" if c else None

        for data in ({}, sp.min(name), {"description": "text"}, {"x-a": 1}, {"entry": {"$ref": "#/a"}}):
            def strangers(data=data):
                a = outcome(w, lambda: sp.validate(cls, absval(data)))
                if a[0] != "ok":
                    return None
                for other in sp.t:
                    if other != name and sp.cls(other) is not cls:
                        b = outcome(w, lambda: sp.validate(sp.cls(other), absval(data)))
                        if b[0] == "ok" and (truth(w.equal(a[1], b[1])) or truth(w.equal(b[1], a[1]))):
                            return f"it equals the {other} object from the same data"
                return None
            ob.run(f"{name} from {data}: other classes", strangers, say, where=cls.qual)
        todo = list(cases(sp, name))
        for l, p, n in todo:
            def alike(p=p):
                x = p()
                a, b = outcome(w, lambda: sp.validate(cls, x)), outcome(w, lambda: sp.validate(cls, w.std.copy(x, True)))
                if a[0] != "ok" or b[0] != "ok":
                    return None
                o, q = a[1], b[1]
                before = frozen(o), frozen(q)
                r = equal(o, q, not differ(w, o, q))
                if r:
                    return f"two objects from the same data are {r}"
                for y, t in ((None, "null"), ("text", "a string"), (3, "a number"), (IList([]), "a list"), (cls, "its class")):
                    if truth(w.equal(o, y)):
                        return f"it equals {t}"
                for other in ("Reference", "ExternalDocumentation", "Tags"):
                    if other != name:
                        y = sp.validate(sp.cls(other), absval(sp.min(other)))
                        if truth(w.equal(o, y)) or truth(w.equal(y, o)):
                            return f"it equals a {other} object"
                c = changed(before[0], frozen(o)) or changed(before[1], frozen(q))
                return f"comparing changes {c}" if c else None
            ob.run(f"{name} {l}: equal data", alike, say, where=cls.qual)
            for how, deep, f in COPIES:
                def copied(p=p, how=how, deep=deep, f=f, n=n):
                    o = make(p)
                    if o is None:
                        return None
                    before = frozen(o)
                    q = conc(f(w, o))
                    c = changed(before, frozen(o))
                    if c:
                        return f"copying changes {c}"
                    if not isinstance(q, Inst) or q.cls is not o.cls:
                        return f"the copy is {show(q)}"
                    if q is o:
                        return "the copy is the object itself"
                    if not same_content(before, frozen(q)):
                        return f"the copy holds {show(q.d)} {show(q.extra)} instead of {show(o.d)} {show(o.extra)}, or other set fields"
                    if not differ(w, o, q):
                        r = equal(o, q, True)
                        if r:
                            return f"the copy is {r} to the original"
                    if deep:
                        sh = set(containers(o)) & set(containers(q))
                        if sh:
                            return f"the deep copy shares {show(containers(q)[next(iter(sh))])} with the original"
                    return edited(o, q, before, n)
                ob.run(f"{name} {l}: {how}", copied, say, where=cls.qual)

        # unequal content
        by = {}
        for l, p, n in todo:
            by.setdefault(n, []).append((l, p))
        for n, ps in by.items():
            for (l, p), (m, q) in list(zip(ps, ps[1:])) + ([(ps[0], ps[-1])] if len(ps) > 2 else []):
                def unlike(p=p, q=q):
                    a, b = make(p), make(q)
                    if a is None or b is None:
                        return None
                    x = differ(w, a, b)
                    r = equal(a, b, not x)
                    return f"objects with {'different' if x else 'the same'} content are {r}" if r else None
                ob.run(f"{name} {l} against {m}", unlike, say, where=cls.qual)
    ctx.pmap(task, order(sp))


# ---------------------------------------------------------------------- C35
RULE35 = "JSON text is accepted exactly when the data it spells is, with the same content"


def c35(ctx):
    sp = Spec(ctx)
    w = ctx.w

    def task(name, part):
        ob = Ob(ctx, part, "C35", RULE35)
        cls = sp.cls(name)
        for l, p, _ in cases(sp, name):
            def fn(p=p):
                x = p()
                if not plain_data(x):
                    return None
                a = outcome(w, lambda: sp.validate(cls, w.std.copy(x, True)))
                b = outcome(w, lambda: w.call(w.getattr(cls, "model_validate_json"), [json_text(x)], {}))
                if a[0] != b[0]:
                    return f"data {show(x)}: {'accepted' if a[0] == 'ok' else a[1]}, the same as JSON text: {'accepted' if b[0] == 'ok' else b[1]}"
                if a[0] == "ok" and not same_content(frozen(a[1]), frozen(b[1])):
                    return f"data {show(x)} gives {show(a[1].d)}, the same as JSON text {show(b[1].d)}"
                return None
            ob.run(f"{name} {l}", fn, say, where=cls.qual)
    ctx.pmap(task, order(sp))


# ---------------------------------------------------------------------- C36
RULE36 = "the order in which fields and entries are given does not matter"


def orders(x, depth=0):
    """The same data with keys in other orders, at every depth."""
    if isinstance(x, IDict):
        ks = x.live()
        if len(ks) > 1:
            yield IDict(ks[::-1])
            if depth == 0:
                for i in range(len(ks)):
                    if i:
                        yield IDict([ks[i]] + ks[:i] + ks[i + 1:])
                    if 0 < i < len(ks) - 1:
                        yield IDict(ks[:i] + ks[i + 1:] + [ks[i]])
        for k, v in ks:
            for y in orders(conc(v), depth + 1):
                yield IDict([(a, y if a is k else b) for a, b in ks])
    elif isinstance(x, list):
        for i, v in enumerate(x):
            for y in orders(conc(v), depth + 1):
                yield IList(list(x[:i]) + [y] + list(x[i + 1:]))


def c36(ctx):
    sp = Spec(ctx)
    w = ctx.w

    def task(name, part):
        ob = Ob(ctx, part, "C36", RULE36)
        cls = sp.cls(name)
        for l, p, _ in cases(sp, name):
            def fn(p=p):
                x = conc(p())
                a = outcome(w, lambda: sp.validate(cls, w.std.copy(x, True)))
                for y in orders(x):
                    b = outcome(w, lambda: sp.validate(cls, w.std.copy(y, True)))
                    if a[0] != b[0]:
                        return f"{show(x)}: {'accepted' if a[0] == 'ok' else a[1]}, but {show(y)}: {'accepted' if b[0] == 'ok' else b[1]}"
                    if a[0] == "ok" and not same_content(frozen(a[1]), frozen(b[1])):
                        return f"{show(x)} gives {show(a[1].d)}, but {show(y)} gives {show(b[1].d)}"
                return None
            ob.run(f"{name} {l}", fn, say, where=cls.qual)
        if sp.t[name]["extra"] == "patterned":
            return
        for x in ["x-a", next((f["wire"] for f in sp.t[name]["fields"].values() if f["wire"] not in sp.min(name)), "x-b")] + w.words("asyncapi3.models.base_models", "asyncapi3.models.helpers", ok=lambda x: 2 < len(x) < 40 and x.isprintable()):
            for y in ("x-other", "y", "x-bad!"):
                def mixed(x=x, y=y):
                    res = []
                    for ks in ((x, y), (y, x)):
                        a = outcome(w, lambda: sp.validate(cls, IDict([*absval(sp.min(name)).live(), *((k, 1) for k in ks)])))
                        b = outcome(w, lambda: sp.validate(cls, IDict([*((k, 1) for k in ks), *absval(sp.min(name)).live()])))
                        res += [a[0] == "ok", b[0] == "ok"]
                    return None if len(set(res)) == 1 else f"whether {x!r} and {y!r} are accepted depends on their order"
                ob.run(f"{name} with {x!r} and {y!r}", mixed, say, where=cls.qual)
    ctx.pmap(task, order(sp))


# ---------------------------------------------------------------------- C37
RULE37 = "a model holds and writes every value exactly as it was given"


def kept(given, got, path="the data", strict=False, free=()):
    """What of the given JSON data is missing or another value in what is written, or None;
    strict: of another kind, too; free: keys of this object below which it is strict, or a function."""
    given, got = conc(given), conc(got)
    if isinstance(given, IDict):
        if not isinstance(got, IDict):
            return f"{path} is written as {show(got)} instead of {show(given)}"
        order = []
        for k, v in given.live():
            i = got.find(k)
            if i is None:
                if conc(v) is None:
                    continue
                return f"{path}.{show(k)} = {show(v)} is not written: {show(got)}"
            order.append(i)
            r = kept(v, got.pairs[i][1], f"{path}.{show(k)}", strict or bool(free and free(k)))
            if r:
                return r
        return None
    if isinstance(given, list):
        if not isinstance(got, list) or len(given) != len(got):
            return f"{path} is written as {show(got)} instead of {show(given)}"
        for i, (a, b) in enumerate(zip(given, got)):
            r = kept(a, b, f"{path}[{i}]", strict)
            if r:
                return r
        return None
    if given is None:
        return None if got is None else f"{path} is written as {show(got)} instead of null"
    if isinstance(got, UrlV):
        got = got.s
    if core.kind(given) != core.kind(got):
        # numbers given as text and the like: which conversions apply is for C08 to say
        return None if not strict and core.kind(got) in ("int", "float", "bool") and core.kind(given) in ("str", "int", "float", "bool") else f"{path} is written as {show(got)} instead of {show(given)}"
    if isinstance(given, float) and given != given:
        return None
    return None if truth(eq(given, got)) else f"{path} is written as {show(got)} instead of {show(given)}"


def c37(ctx):
    sp = Spec(ctx)
    w = ctx.w
    ways = [("model_dump()", "model_dump", {}), ("model_dump_json()", "model_dump_json", {})]

    def task(name, part):
        ob = Ob(ctx, part, "C37", RULE37)
        cls = sp.cls(name)
        d = sp.t[name]

        known = {f["wire"]: "any" in str(f["type"]) for f in d["fields"].values()}
        names = {f["wire"] for f in d["fields"].values()} | set(d["fields"])

        def free(k):
            if d["extra"] == "patterned":
                return False
            k = conc(k)
            return known.get(k, k not in names) if isinstance(k, str) else core.kind(k) == "str"

        def written(o, x, null_ok=False):
            for how, m, kw in ways:
                y = w.call(w.getattr(o, m), [], dict(kw))
                r = kept(x, getattr(y, "data", y), free=free)
                if r:
                    return f"{how}: {r}"
            return None
        for l, p, n in cases(sp, name):
            def fn(p=p):
                x = p()
                if not plain_data(x):
                    return None
                a = outcome(w, lambda: sp.validate(cls, w.std.copy(x, True)))
                return written(a[1], x) if a[0] == "ok" else None
            ob.run(f"{name} {l}", fn, say, where=cls.qual)
            if d["extra"] == "patterned":
                def store(p=p):
                    x = p()
                    if not plain_data(x) or not isinstance(conc(x), IDict):
                        return None
                    o = sp.validate(cls, IDict())
                    for k, v in conc(x).live():
                        a = outcome(w, lambda: w.call(w.getattr(o, "__setitem__"), [k, w.std.copy(v, True)], {}))
                        if a[0] != "ok":
                            return None
                    return written(o, x)
                ob.run(f"{name} {l}: entries stored one by one", store, say, where=cls.qual)
            elif n is not None:
                def assign(p=p, n=n):
                    x = conc(p())
                    if not plain_data(x):
                        return None
                    wire = d["fields"][n]["wire"]
                    base = IDict([(k, v) for k, v in x.live() if k != wire])
                    if wire not in [conc(k) for k, _ in x.live()]:
                        return None
                    a = outcome(w, lambda: sp.validate(cls, w.std.copy(base, True)))
                    if a[0] != "ok":
                        return None
                    o = a[1]
                    b = outcome(w, lambda: w.setattr(o, n, w.std.copy(x.get(wire), True)))
                    return written(o, x) if b[0] == "ok" else None
                ob.run(f"{name} {l}: assigned", assign, say, where=cls.qual)
    ctx.pmap(task, order(sp))


CHECKS = {"C37": c37, "C26": c26, "C34": c34, "C35": c35, "C36": c36}
