"""C22 on the object model: no raw value makes a model validator escape with anything but a value error."""
from __future__ import annotations

import re

import core
from core import R, IDict, IList, ISet, AStr, AInt, mk
from lang import ALL
from check import need
from models import Spec, Ob, absval, foreign, generic, shapes, outcome, data_with
import rules

RULE = "model validators reject input only by raising a value error"


def odd(sp):
    """Raw values that fit nowhere, or only by accident."""
    info = sp.cls("Info")
    return [
        ("a map with an integer key", lambda: IDict([(3, "x")])),
        ("a map with a null key", lambda: IDict([(None, "x")])),
        ("a map with a tuple key", lambda: IDict([((1, "a"), "x")])),
        ("a list of lists", lambda: IList([IList([IList([])])])),
        ("a list of maps", lambda: IList([IDict([("a", None)]), IDict()])),
        ("a map of maps", lambda: IDict([("a", IDict([("b", IDict())]))])),
        ("a map to a list", lambda: IDict([(mk(R().newkey("key")), IList([None, 1]))])),
        ("a tuple", lambda: (1, "a")),
        ("bytes", lambda: b"abc"),
        ("a set", lambda: ISet(["a"])),
        ("a huge integer", lambda: 10 ** 400),
        ("infinity", lambda: float("inf")),
        ("not a number", lambda: float("nan")),
        ("the empty string", lambda: ""),
        ("an Info instance", lambda: sp.validate(info, absval(sp.min("Info")))),
        ("a class", lambda: info),
        ("a $ref map with a non-string", lambda: IDict([("$ref", R().sym("ref", [AInt()]))])),
        ("a $ref map to null", lambda: IDict([("$ref", None)])),
        ("a deeply nested list", lambda: deep(60)),
    ]


def deep(n):
    x = IList([])
    for _ in range(n):
        x = IList([x])
    return x


def texts(s):
    """Odd texts made from a valid one."""
    out = []
    if re.search(r"\d", s):
        out += [("its digits repeated 400 times", re.sub(r"\d+", lambda m: "9" * 400, s)), ("its first number 5000 digits long", re.sub(r"\d+", lambda m: "9" * 5000, s, count=1)),
                ("other digits", re.sub(r"\d", "\u00b2", s)), ("Arabic digits", re.sub(r"\d", "\u0663", s)), ("a sign before it", "-" + s)]
    out += [("a lone surrogate after it", s + "\ud800"), ("a NUL after it", s + "\0"), ("a bracket before it", "[" + s), ("a percent sign after it", s + "%"), ("a brace after it", s + "{"),
            ("a backslash after it", s + "\\"), ("a line end after it", s + "\n"), ("itself 300 times", s * 300)]
    return [(l, lambda t=t: t) for l, t in out]


ODDNAMES = ("{b}", "{0[}", "{}", "{", "}", "%s", "%(x)d", "%", "%zz", "\\1", "\\g<x>", "\\", "$x", "${y}", "[", "(", "*", "**", "?", "a.b", "..", "", " ", "\ud800", "\0", "\u00e9", "root", "0", "__class__", "~", "~1", "'", "\n")


def nest(kind, n=1500):
    x = 1
    for _ in range(n):
        x = IDict([("a", x)]) if kind == "maps" else IList([x])
    return x


def message(**kw):
    return {"components": {"messages": {"m": kw}}}


# places where a document may hold values of any depth
FREE = {
    "a message example payload": lambda x: message(examples=[{"payload": x}]),
    "message example headers": lambda x: message(examples=[{"headers": {"h": x}, "payload": 1}]),
    "a multi format schema": lambda x: message(payload={"schemaFormat": "application/x", "schema": x}),
    "a schema": lambda x: {"components": {"schemas": {"s": {"type": "object", "properties": {"p": x}}}}},
    "an extension": lambda x: {"info": {"title": "t", "version": "1", "x-deep": x}},
    "Google Pub/Sub labels": lambda x: {"components": {"channelBindings": {"b": {"googlepubsub": {"labels": {"l": x}}}}}},
}


def uniq(xs):
    seen, out = set(), []
    for l, p in xs:
        if l not in seen:
            seen.add(l)
            out.append((l, p))
    return out


def escape(a, how):
    if a[0] == "crash":
        return f"{how}: {core.exc_name(a[1].exc)} escapes at {a[1].site}"
    return None


def c22_tasks(ctx, env):
    w = ctx.w
    sp = ctx.sp = Spec(ctx)
    tasks = []

    def one(ob, key, fn, how, where):
        def judge(run, out):
            if out.kind == "raise":
                return f"{how}: {core.exc_name(out.exc)} escapes at {out.site}"
            for a in out.value:
                p = escape(a, how)
                if p:
                    return p
            return None
        ob.run(key, fn, judge, where=where, max_steps=2_000_000)

    def task(name):
        def go(part):
            ob = Ob(ctx, part, "C22", RULE)
            cls = sp.cls(name)
            d = sp.t[name]
            root = d["extra"] == "patterned"
            # the whole data
            for l, p in uniq(generic(sp) + odd(sp)):
                def fn(p=p):
                    a = outcome(w, lambda: sp.validate(cls, p()))
                    if root:
                        return [a, outcome(w, lambda: w.instantiate(cls, [p()], {}))]
                    return [a]
                one(ob, f"{name} from {l}", fn, f"{name} from {l}", cls.qual)
            if root:
                good = sp.sample(d["fields"]["root"]["type"][2])
                for l, p in uniq(generic(sp) + odd(sp)):
                    def items(p=p):
                        o = sp.validate(cls, absval(sp.min(name)))
                        return [outcome(w, lambda: w.setitem(o, "k", p()))]
                    one(ob, f"{name}[k] = {l}", items, f"map[key] = {l}", cls.qual)
                    if l.startswith(("a list", "a map", "an empty", "a set", "a $ref", "a Ref", "an Info", "a deep", "an object")):
                        continue

                    def keys(p=p):
                        o = sp.validate(cls, absval(sp.min(name)))
                        return [outcome(w, lambda: w.setitem(o, p(), absval(good)))]
                    one(ob, f"{name}[{l}]", keys, f"map[{l}] = value", cls.qual)

                def two():
                    return [outcome(w, lambda: sp.validate(cls, IDict([(R().sym("key", [AStr(ALL)]), absval(good)), ("b", None)])))]
                one(ob, f"{name} with any key and a null entry", two, "any key and a null entry", cls.qual)
                return
            for n, f in d["fields"].items():
                good = sp.sample(f["type"], name, n)
                pr = uniq(generic(sp) + odd(sp) + shapes(sp, sp.term(f["type"])) + (texts(good) if isinstance(good, str) else []))
                for l, p in pr:
                    def fn(p=p, n=n):
                        return [outcome(w, lambda: sp.validate(cls, data_with(sp, name, n, p())))]
                    one(ob, f"{name}.{n} given {l}", fn, f"{n} given {l}", f"{cls.qual}.{n}")

                    def kw(p=p, n=n):
                        k = {q: v for q, v in absval(sp.base(name, n)).live()}
                        k[n] = p()
                        return [outcome(w, lambda: w.instantiate(cls, [], k))]

                    def asg(p=p, n=n, f=f):
                        d0 = absval(sp.base(name, n))
                        d0.set(f["wire"], absval(sp.sample(f["type"], name, n)))
                        a = outcome(w, lambda: sp.validate(cls, d0))
                        if a[0] != "ok":
                            return [a]
                        return [outcome(w, lambda: w.setattr(a[1], n, p()))]
                    one(ob, f"{name}({n}={l})", kw, f"keyword {n}={l}", f"{cls.qual}.{n}")
                    one(ob, f"{name}.{n} = {l}", asg, f"assigning {l} to {n}", f"{cls.qual}.{n}")

                def absent(n=n):
                    return [outcome(w, lambda: sp.validate(cls, absval(sp.base(name, n))))]
                one(ob, f"{name} without {n}", absent, f"{n} left out", f"{cls.qual}.{n}")
            # unknown names
            for l, key in (("any name", lambda: R().sym("name", [AStr(ALL)])), ("x-", lambda: "x-"), ("the empty name", lambda: "")):
                for vl, v in (("1", lambda: 1), ("null", lambda: None)):
                    def ext(key=key, v=v):
                        e = absval(sp.min(name))
                        e.pairs.append([key(), v()]) if l == "any name" else e.set(key(), v())
                        return [outcome(w, lambda: sp.validate(cls, e))]
                    one(ob, f"{name} with the unknown field {l} = {vl}", ext, f"unknown field {l}", cls.qual)
            # two fields at once: a value of the wrong kind next to an absent one
            ns = list(d["fields"])
            for a, b in zip(ns, ns[1:]):
                def pair(a=a, b=b):
                    e = absval(sp.min(name))
                    e.set(d["fields"][a]["wire"], None)
                    e.set(d["fields"][b]["wire"], None)
                    return [outcome(w, lambda: sp.validate(cls, e))]
                one(ob, f"{name} with null {a} and {b}", pair, f"null {a} and {b}", cls.qual)

            def nulls():
                return [outcome(w, lambda: sp.validate(cls, IDict([(f["wire"], None) for f in d["fields"].values()])))]
            one(ob, f"{name} with null everywhere", nulls, "null everywhere", cls.qual)
            one(ob, f"{name} empty", lambda: [outcome(w, lambda: w.instantiate(cls, [], {}))], "no argument", cls.qual)
        return go
    for name in sp.t:
        tasks.append(task(name))
    vs = [need(w, n, "asyncapi3.validators") for n in ("UnifiedReferencesValidator", "TagsRefValidator", "ExternalDocsRefValidator")]

    def deeptask(V, place, kind):
        def go(part):
            ob = Ob(ctx, part, "C22", RULE)

            def fn():
                d = {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}, **FREE[place](nest(kind))}
                o = sp.validate(env.root, absval(d))
                return [outcome(w, lambda: w.call(w.instantiate(V, [], {}), [o], {}))]
            one(ob, f"{V.name}: {kind} nested 1500 deep in {place}", fn, f"{kind} nested 1500 deep in {place} under {V.name}", V.qual)
        return go
    for V in vs:
        for place in FREE:
            for kind in ("maps", "lists"):
                tasks.append(deeptask(V, place, kind))
    def through(o):
        """References through, to and below an entry with an odd name."""
        def go(part):
            ob = Ob(ctx, part, "C22", RULE)
            for what, ref in (("an absent field of", f"/servers/s/variables/{o}/description"), ("no field of", f"/servers/s/variables/{o}/x"), ("a value in", f"/servers/s/variables/{o}/default"),
                              ("something below a value in", f"/servers/s/variables/{o}/default/x"), ("", f"/servers/s/variables/{o}"), ("a missing entry", f"/servers/s/variables/x{o}")):
                for V in vs:
                    def fn(ref=ref, V=V):
                        d = {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1", "tags": [{"$ref": "#" + ref}], "externalDocs": {"$ref": "#" + ref}},
                             "servers": {"s": {"host": "h", "protocol": "p", "variables": {o: {"default": "x"}}}}}
                        x = sp.validate(env.root, absval(d))
                        return [outcome(w, lambda: w.call(w.instantiate(V, [], {}), [x], {}))]
                    one(ob, f"{V.name}: a reference to {what} the entry {o!r}", fn, f"a reference to {what} the entry {o!r}", V.qual)
            for V in vs:
                def below(V=V):
                    d = {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}, "servers": {"s": {"host": "h", "protocol": "p", "variables": {o: {"$ref": "#/servers/x"}}}}}
                    x = sp.validate(env.root, absval(d))
                    return [outcome(w, lambda: w.call(w.instantiate(V, [], {}), [x], {}))]
                one(ob, f"{V.name}: a dangling reference at the entry {o!r}", below, f"a dangling reference at the entry {o!r}", V.qual)
        return go
    for o in ODDNAMES:
        tasks.append(through(o))

    def chain(part, n=60, limit=50):
        # the call depth must not grow with the length of a chain: more links than frames allowed
        ob = Ob(ctx, part, "C22", RULE)

        def fn():
            d = {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"},
                 "components": {"schemas": {**{f"s{i}": {"$ref": f"#/components/schemas/s{i + 1}"} for i in range(n)}, f"s{n}": {"type": "object"}}}}
            o = sp.validate(env.root, absval(d))
            v = w.instantiate(vs[0], [], {})
            old, w.maxdepth = w.maxdepth, limit
            try:
                return [outcome(w, lambda: w.call(v, [o], {}))]
            finally:
                w.maxdepth = old
        one(ob, "UnifiedReferencesValidator: a long chain of references", fn, f"a chain of {n} references under a call depth of {limit}", vs[0].qual)
    tasks.append(chain)
    s = rules.scheme()
    for i in range(len(rules.TYPES)):
        tasks.append(lambda part, i=i: rules.check_rule(ctx, part, "C22", RULE, s, i, 1 if ctx.thorough else 0, 0, crash=True))
    for r in [rules.flows(), rules.channel(), rules.example(), rules.corr(), rules.contact()] + rules.c12_rules():
        tasks.append(lambda part, r=r: rules.check_rule(ctx, part, "C22", RULE, r, None, 0, 0, crash=True))
    return tasks
