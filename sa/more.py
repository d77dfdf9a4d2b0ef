"""Maps, independence of objects, serialising, revalidation, error texts, validator hooks: C28-C33."""
from __future__ import annotations

import re

import core
import models
from core import R, IDict, IList, ISet, PyRaise, AnchorLost, conc, eq, mk, show, truth
from interp import GAP, Text
from objs import Inst
from models import Spec, Ob, absval, outcome, data_with, frozen, changed, same, foreign, field_probes


def newkey(label):
    return mk(R().newkey(label))


def containers(v, out=None, skip=()):
    """The mutable containers reachable from a value, by identity."""
    out = {} if out is None else out
    v = conc(v)
    if isinstance(v, (Inst, IDict, list, ISet)):
        if id(v) in out or id(v) in skip:
            return out
        out[id(v)] = v
    if isinstance(v, Inst):
        containers(v.d, out, skip)
        if v.extra is not None:
            containers(v.extra, out, skip)
    elif isinstance(v, IDict):
        for k, x in v.live():
            containers(x, out, skip)
    elif isinstance(v, (list, tuple, ISet)):
        for x in v:
            containers(x, out, skip)
    return out


# ---------------------------------------------------------------------- C28
RULE28 = "a patterned object behaves as the mapping of its entries"
NEARKEYS = [("Ab-1", x) for x in ("ab-1", "AB-1", "Ab_1", "Ab-1 ", " Ab-1", "Ab-1x", "xAb-1", "Ab-", "Ab", "Ab-01", "")] + [
    ("ab", "ab-"), ("a_b", "aB"), ("aB", "a_b"), ("a-b", "a_b"), ("1", "01"), ("None", ""), ("root", "Root"), ("entry", "root"), ("entry", "entries"), ("Tag", "tag")]
SPECIAL = ("root", "model_fields", "keys", "__class__", "model_config", "copy", "0", "None")


def c28(ctx):
    sp = Spec(ctx)
    w = ctx.w
    names = [n for n, d in sp.t.items() if d["extra"] == "patterned"]

    def lookup(o, k):
        try:
            return "ok", w.getitem(o, k)
        except PyRaise as e:
            return ("missing" if w.exc_matches(e.exc, (KeyError,)) else "crash"), e

    def compare(o, want, gone):
        """Problem when the map o does not show exactly the entries want [(key, value)]."""
        keys = list(w.iterate(o))
        if len(keys) != len(want) or not all(truth(eq(a, k)) for a, (k, _) in zip(keys, want)):
            return f"iteration yields {show(IList(keys))} instead of the keys {show(IList([k for k, _ in want]))}"
        n = conc(w.len_(o))
        if n != len(want):
            return f"len() is {show(n)} with {len(want)} entries"
        if bool(w.truth(o)) != bool(want):
            return f"truth value of a map with {len(want)} entries"
        for k, v in want:
            if not w.truth(w.contains(o, k)):
                return f"{show(k)} is not in the map although the entry exists"
            r = lookup(o, k)
            if r[0] != "ok" or r[1] is not v:
                return f"map[{show(k)}] is {show(r[1])} instead of {show(v)}"
        for k in gone:
            if w.truth(w.contains(o, k)):
                return f"{show(k)} is in the map although there is no such entry"
            r = lookup(o, k)
            if r[0] != "missing":
                return f"map[{show(k)}] gives {show(r[1])} although there is no such entry"
        d = w.call(w.getattr(o, "model_dump"), [], {})
        if not isinstance(d, IDict) or len(d) != len(want) or not all(truth(eq(a, k)) for a, (k, _) in zip(d.keys_(), want)):
            return f"serialised as {show(d)}"
        return None

    def task(name, part):
        ob = Ob(ctx, part, "C28", RULE28)
        cls = sp.cls(name)
        item = sp.t[name]["fields"]["root"]["type"][2]
        good = sp.sample(item)

        def val(i):
            return absval(good) if i % 2 == 0 else IDict([("$ref", "#/components/x/y")])

        def history(key, start, ops, keys, gone):
            """ops: list of ("set", key index) and ("del", key index)."""
            def fn():
                ks = [k() if callable(k) else k for k in keys]
                out = [k() if callable(k) else k for k in gone]
                o = sp.validate(cls, IDict([(ks[i], val(i)) for i in start]))
                want = [(k, v) for k, v in conc(o.d.get("root")).live()] if conc(o.d.get("root")) is not None else []
                if [k for k, _ in want] != [ks[i] for i in start]:
                    return f"the constructor keeps {show(IList([k for k, _ in want]))}"
                r = compare(o, want, [k for i, k in enumerate(ks) if i not in start] + out)
                if r:
                    return r
                for j, (op, i) in enumerate(ops):
                    k = ks[i]
                    done = ", ".join(f"{a} {show(ks[b])}" for a, b in ops[:j + 1])
                    if op == "set":
                        w.setitem(o, k, val(j))
                        new = conc(o.d.get("root")).get(k)
                        if any(x == k for x, _ in want):
                            want = [(x, new if x == k else v) for x, v in want]
                        else:
                            want.append((k, new))
                    else:
                        had = any(x == k for x, _ in want)
                        try:
                            w.delitem(o, k)
                            if not had:
                                return f"after {done}: deleting a missing entry raises nothing"
                        except PyRaise as e:
                            if had or not w.exc_matches(e.exc, (KeyError,)):
                                return f"after {done}: {core.exc_name(e.exc)}"
                        want = [(x, v) for x, v in want if x != k]
                    r = compare(o, want, [x for x in ks if not any(x == y for y, _ in want)] + out)
                    if r:
                        return f"after {done}: {r}"
                return None
            ob.run(f"{name} {key}", fn, lambda run, out: out.text() if out.kind == "raise" else out.value, where=cls.qual)
        sym = [lambda i=i: newkey(f"key{i}") for i in range(4)]
        none = [lambda: newkey("missing"), "", 5]
        hist = [((), ()), ((0,), ()), ((0, 1, 2), ()), ((0, 1, 2, 3), ())]
        S, D = "set", "del"
        for start in ((), (0,), (0, 1), (0, 1, 2)):
            for ops in ([(S, 0)], [(S, 3)], [(D, 0)], [(D, 3)], [(S, 1), (D, 1)], [(D, 0), (S, 0)], [(S, 0), (S, 0)], [(S, 3), (D, 0), (S, 2)],
                        [(D, 0), (D, 0)], [(D, 2), (D, 1), (D, 0)], [(S, 2), (S, 1), (S, 0), (S, 3)]):
                hist.append((start, ops))
        for n in w.sizes("asyncapi3.models.base_models", cls.module.name, hi=300)[:4]:
            ks = [f"k{i}" for i in range(n + 1)]
            history(f"with {n + 1} entries", tuple(range(n)), [(S, n), (D, 0)], ks, none)
        for start, ops in hist:
            history(f"with {len(start)} entries, then {' '.join(f'{a}{b}' for a, b in ops) or 'nothing'}", start, ops, sym, none)
        for have, asked in NEARKEYS:
            history(f"with the entry {have!r}, asked for {asked!r}", (0,), [(D, 1)] if asked else [], [have, asked] if asked else [have], [] if asked else [asked])
            if asked and asked.strip() == asked:
                history(f"with the entries {have!r} and {asked!r}", (0, 1), [(D, 0), (S, 0), (D, 1), (S, 1)], [have, asked], [])
        for k in w.words("asyncapi3.models.base_models", "asyncapi3.models.helpers", cls.module.name, ok=re.compile(r"[A-Za-z0-9_-]+").fullmatch):
            for ks in ([k, "z9", "a1"], ["z9", k, "a1"], ["Z", "a1", k], [k + "a", "a" + k, k]):
                history(f"with the entries {ks}", (0, 1, 2), [(D, 0), (S, 0), (S, 1), (D, 2)], ks, none)
        for k in SPECIAL:
            if k != "":
                history(f"with the entry {k!r}" if k != "model_fields" else "with the entry 'model_fields'", (0,), [(D, 0), (S, 0)], [k, sym[1]], [])
                history(f"without the entry {k!r}", (1,), [(D, 0)], [k, sym[1]], [])
    ctx.pmap(task, names)


# ---------------------------------------------------------------------- C29
RULE29 = "validation changes neither the data it is given nor any other object"


def full(sp, name, skip=()):
    """JSON of an object with as many fields as fit together."""
    d = dict(sp.min(name))
    if sp.t[name]["extra"] == "patterned":
        item = sp.t[name]["fields"]["root"]["type"][2]
        return {"entry": sp.sample(item), "other": {"$ref": "#/components/a/b"}}
    for n, f in sp.t[name]["fields"].items():
        if f["wire"] in d or n in skip:
            continue
        d[f["wire"]] = sp.sample(f["type"], name, n)
    if sp.t[name]["extra"] in ("extensible", "open"):
        d["x-extra"] = {"a": [1, {"b": None}]}
    return d


def largest(sp, name):
    """JSON of a valid object with as many fields as possible, added one by one (abstractly validated)."""
    cls = sp.cls(name)
    d = dict(sp.min(name))
    if sp.t[name]["extra"] == "patterned":
        return full(sp, name)
    for n, f in sp.t[name]["fields"].items():
        if f["wire"] in d or name == "AsyncAPI3" and n.startswith("extra_"):
            continue
        e = {**d, f["wire"]: sp.sample(f["type"], name, n)}
        if outcome(sp.w, lambda: sp.validate(cls, absval(e)))[0] == "ok":
            d = e
    if sp.t[name]["extra"] in ("extensible", "open"):
        d["x-extra"] = {"a": [1, {"b": None}], "c": {}}
    return d


def variants(d, depth=3, path=""):
    """Near variants of JSON data, each with one place changed: (text, data)."""
    if isinstance(d, dict):
        if len(d) > 1:
            yield f"{path or 'the data'} in another order", dict(reversed(d.items()))
        if depth:
            for k, v in d.items():
                p = f"{path}.{k}" if path else k
                yield f"{p} null", {**d, k: None}
                for t, x in variants(v, depth - 1, p):
                    yield t, {**d, k: x}
    elif isinstance(d, list):
        if d:
            yield f"{path} with the last item repeated", d + [d[-1]]
            if all(isinstance(x, str) for x in d):
                yield f"{path} with more texts", d + ["b", "A", "", "B", "a", " c", "10", "9"]
            yield f"{path} with the first item repeated twice", d[:1] + d + d[:1]
            yield f"{path} with a null item", d + [None]
            yield f"{path} emptied", []
            if depth:
                for i in {0, len(d) - 1}:
                    for t, x in variants(d[i], depth - 1, f"{path}[{i}]"):
                        yield t, d[:i] + [x] + d[i + 1:]
        if len(d) > 1:
            yield f"{path} in another order", d[::-1]
    elif isinstance(d, str):
        yield f"{path} in blanks", f" {d} "
        yield f"{path} in capitals", d.upper()
        yield f"{path} empty", ""
    elif isinstance(d, bool):
        yield f"{path} {not d}", not d
    elif isinstance(d, (int, float)):
        yield f"{path} 0", 0


def near(sp, name):
    """Near variants of full data and of data with one field given."""
    big = largest(sp, name)
    for t, x in variants(big):
        yield f"full data, {t}", x
    if sp.t[name]["extra"] == "patterned":
        return
    for n, f in sp.t[name]["fields"].items():
        base, v = dict(sp.base(name, n)), sp.sample(f["type"], name, n)
        if f["wire"] in big and all(big.get(k) == x for k, x in base.items()):
            continue
        yield f"data with {n} null", {**base, f["wire"]: None}
        for t, x in variants(v, 3, n):
            yield f"data with {t}", {**base, f["wire"]: x}


def c29(ctx):
    sp = Spec(ctx)
    w = ctx.w

    def touched(before, after):
        return changed(before, after)

    def task(name, part):
        ob = Ob(ctx, part, "C29", RULE29)
        cls = sp.cls(name)
        d = sp.t[name]
        root = d["extra"] == "patterned"

        def unchanged(key, mk_data, op):
            """op(data) may accept or reject; the data must keep its content."""
            def fn():
                x = mk_data()
                b = frozen(x)
                a = op(x)
                return a, touched(b, frozen(x))

            def judge(run, out):
                if out.kind == "raise":
                    return out.text()
                c = out.value[1]
                return f"the {'accepted' if out.value[0][0] == 'ok' else 'rejected'} input is changed: {c}" if c else None
            ob.run(f"{name} {key}", fn, judge, where=cls.qual)
        val = lambda x: outcome(w, lambda: sp.validate(cls, x))

        def kw(x):
            return outcome(w, lambda: w.instantiate(cls, [], {k: v for k, v in x.live()}))

        big = lambda: absval(largest(sp, name))
        cases = [("minimal data", lambda: absval(sp.min(name))), ("full data", big), ("all fields at once", lambda: absval(full(sp, name)))]
        if not root:
            cases.append(("full data with an unknown field", lambda: IDict(big().live() + [("badName", IList([1]))])))
            cases.append(("full data with an extension", lambda: IDict(big().live() + [("x-a.b", IDict([("k", None)]))])))
        else:
            cases.append(("a bad key", lambda: IDict(big().live() + [("bad key", absval(sp.sample(d["fields"]["root"]["type"][2])))])))
        for l, p in cases:
            unchanged(f"from {l}", p, val)
            if not root:
                unchanged(f"by keyword from {l}", p, kw)

        for t, x in near(sp, name):
            unchanged(f"from {t}", lambda x=x: absval(x), val)

        def inst():
            return sp.validate(cls, big())
        unchanged("from an instance", inst, val)

        def bad_inst():
            o = inst()
            n = next(iter(d["fields"]), None) if not root else "root"
            if n is None:
                return o
            o.d.set(n, foreign(sp) if not root else IDict([("a", foreign(sp))]))
            return o
        unchanged("from a broken instance", bad_inst, val)
        for n, f in d["fields"].items():
            if root:
                continue
            t = w.pyd.info(cls).fields.get(n)
            if t is None:
                raise AnchorLost(f"{name}.{n} is gone")
            for l, p in field_probes(sp, sp.term(f["type"]), t.term):
                unchanged(f"{n} given {l}", lambda p=p, n=n: data_with(sp, name, n, p()), val)
                if " instance" in l or l in ("an empty list", "an empty map", "a $ref map"):
                    def assign(x, n=n):
                        o = sp.validate(cls, data_with(sp, name, n, absval(sp.sample(f["type"], name, n))))
                        return outcome(w, lambda: w.setattr(o, n, x))
                    unchanged(f"{n} assigned {l}", p, assign)
        # independence of two objects
        for l, p in (("minimal", lambda: absval(sp.min(name))), ("full", big)):
            def two(p=p):
                a, b = sp.validate(cls, p()), sp.validate(cls, p())
                for o in (a, b):
                    for n in d["fields"]:
                        w.getattr(o, n)
                sh = set(containers(a)) & set(containers(b))
                return [containers(a)[i] for i in sh]
            ob.run(f"{name} two {l} objects", two, lambda run, out: out.text() if out.kind == "raise" else f"two objects share {show(out.value[0])}" if out.value else None, where=cls.qual)

            def again(p=p):
                a = outcome(w, lambda: sp.validate(cls, p()))
                b = outcome(w, lambda: sp.validate(cls, IDict([("bad name!", 1)])))
                c = outcome(w, lambda: sp.validate(cls, p()))
                e = outcome(w, lambda: sp.validate(cls, IDict([("bad name!", 1)])))
                return a, b, c, e

            def j2(run, out):
                if out.kind == "raise":
                    return out.text()
                a, b, c, e = out.value
                if a[0] != c[0] or b[0] != e[0]:
                    return f"the same data is {'accepted' if a[0] == 'ok' else 'rejected'} first and {'accepted' if c[0] == 'ok' else 'rejected'} later"
                if a[0] == "ok" and not same_content(frozen(a[1]), frozen(c[1])):
                    return "the same data gives different objects"
                return None
            ob.run(f"{name} the same {l} data twice", again, j2, where=cls.qual)

            # changing one object in place does not show in another one
            def edit(p=p):
                src = p()
                a = sp.validate(cls, src)
                b = sp.validate(cls, p())
                before = frozen(b)
                for c in list(containers(a).values()):
                    if isinstance(c, IDict) and c is not a.d:
                        c.owner = None
                        c.set("changed", 1)
                    elif isinstance(c, list) and not isinstance(c, tuple):
                        c.append("changed")
                c = sp.validate(cls, p())
                return touched(before, frozen(b)), same_content(before, frozen(c))

            def j3(run, out):
                if out.kind == "raise":
                    return out.text()
                if out.value[0]:
                    return f"editing one object changes another one: {out.value[0]}"
                return None if out.value[1] else "editing an object changes objects created later"
            ob.run(f"{name} two {l} objects, one edited in place", edit, j3, where=cls.qual)

    def builder(part):
        ob = Ob(ctx, part, "C29", RULE29)
        cls = sp.cls("AsyncAPI3")

        def fn():
            mkdoc = lambda **k: w.call(w.getattr(cls, "as_builder"), [], k)
            a, b = mkdoc(), mkdoc(title="other")
            sh = set(containers(a)) & set(containers(b))
            if sh:
                return f"two built documents share {show(containers(a)[next(iter(sh))])}"
            before = frozen(b)
            comp = w.getattr(a, "components")
            for sec in sp.t["Components"]["fields"]:
                m = w.getattr(comp, sec)
                t = sp.t["Components"]["fields"][sec]["type"]
                w.setitem(m, "entry", IDict([("$ref", "#/x")]))
            for sec in ("servers", "channels", "operations"):
                w.setitem(w.getattr(a, sec), "entry", IDict([("$ref", "#/x")]))
            w.setattr(w.getattr(a, "info"), "title", "changed")
            w.getattr(a, "extra_validators").append(foreign(sp))
            c = changed(before, frozen(b))
            if c:
                return f"filling one built document changes another one: {c}"
            z = mkdoc(title="other")
            return None if same_content(before, frozen(z)) else "filling a built document changes documents built later"
        ob.run("AsyncAPI3.as_builder called again", fn, lambda run, out: out.text() if out.kind == "raise" else out.value, where=cls.qual)

        def args():
            tags = IList([sp.validate(sp.cls("Tag"), absval({"name": "t"}))])
            con = sp.validate(sp.cls("Contact"), absval({"name": "c"}))
            lic = sp.validate(sp.cls("License"), absval({"name": "l"}))
            docs = sp.validate(sp.cls("ExternalDocumentation"), absval({"url": models.URL}))
            srv = sp.validate(sp.cls("Servers"), IDict())
            xs = [tags, con, lic, docs, srv]
            b = [frozen(x) for x in xs]
            mkdoc = lambda: w.call(w.getattr(cls, "as_builder"), [], dict(tags=tags, contact=con, license=lic, external_docs=docs, servers=srv))
            one, two = mkdoc(), mkdoc()
            for x, y in zip(b, xs):
                c = changed(x, frozen(y))
                if c:
                    return f"the builder changes its argument {show(y)}: {c}"
            return None
        ob.run("AsyncAPI3.as_builder arguments", args, lambda run, out: out.text() if out.kind == "raise" else out.value, where=cls.qual)
    ctx.pmap(lambda it, part: builder(part) if it is None else task(it, part), [None] + sorted(sp.t, key=lambda n: -len(sp.t[n]["fields"])))


def same_content(a, b):
    """Equal states of two different objects."""
    if a[0] != b[0]:
        return False
    if a[0] == "again":
        return True
    if a[0] == "value":
        x, y = a[1], b[1]
        return x is y or same(x, y)
    if a[0] == "inst":
        if a[1].cls is not b[1].cls or (a[4] or []) != (b[4] or []):
            return False
        return pairs(a[2], b[2]) and pairs(a[3], b[3])
    if a[0] == "map":
        return pairs(a[2], b[2])
    return len(a[2]) == len(b[2]) and all(same_content(x, y) for x, y in zip(a[2], b[2]))


def ordered(a, b):
    """The maps of two equal values list their keys in the same order."""
    a, b = conc(a), conc(b)
    if isinstance(a, IDict) and isinstance(b, IDict):
        return all(truth(eq(x, y)) for x, y in zip(a.keys_(), b.keys_())) and all(ordered(x, y) for x, y in zip(a.vals_(), b.vals_()))
    if isinstance(a, list) and isinstance(b, list):
        return all(ordered(x, y) for x, y in zip(a, b))
    return True


def pairs(x, y):
    x, y = x or [], y or []
    if len(x) != len(y):
        return False
    y = {str(k): v for k, v in y}
    return all(str(k) in y and same_content(v, y[str(k)]) for k, v in x)


# ---------------------------------------------------------------------- C30
RULE30 = "serialising an object changes nothing and gives the same result every time"
HOW = [("model_dump()", "model_dump", {}), ("model_dump_json()", "model_dump_json", {}), ("model_dump(mode='json')", "model_dump", {"mode": "json"}),
       ("model_dump(by_alias=False)", "model_dump", {"by_alias": False}), ("model_dump(exclude_none=True)", "model_dump", {"exclude_none": True}),
       ("model_dump(exclude_unset=True)", "model_dump", {"exclude_unset": True}), ("model_dump(exclude_defaults=True)", "model_dump", {"exclude_defaults": True})]


def c30(ctx):
    sp = Spec(ctx)
    w = ctx.w

    def task(name, part):
        ob = Ob(ctx, part, "C30", RULE30)
        cls = sp.cls(name)
        d = sp.t[name]
        root = d["extra"] == "patterned"
        cases = [("minimal", lambda: absval(sp.min(name))), ("full", lambda: absval(largest(sp, name)))]
        if root:
            cases.append(("empty", lambda: IDict()))
        for t, x in near(sp, name):
            cases.append((t, lambda x=x: absval(x)))
        if not root:
            for n, f in d["fields"].items():
                cases.append((f"{n} given", lambda n=n, f=f: data_with(sp, name, n, absval(sp.sample(f["type"], name, n)))))
                if "any" in str(f["type"]):
                    cases.append((f"{n} nested", lambda n=n: data_with(sp, name, n, absval({"a": [1, {"b": []}], "c": None}))))
        for l, p in cases:
            for how, m, kw in HOW:
                def fn(p=p, m=m, kw=kw):
                    a = outcome(w, lambda: sp.validate(cls, p()))
                    if a[0] != "ok":
                        return None
                    o = a[1]
                    b = frozen(o)
                    x = w.call(w.getattr(o, m), [], dict(kw))
                    c = changed(b, frozen(o))
                    if c:
                        return f"serialising changes {c}"
                    y = w.call(w.getattr(o, m), [], dict(kw))
                    x, y = getattr(x, "data", x), getattr(y, "data", y)
                    if not same(x, y) or not ordered(x, y):
                        return f"serialising again gives {show(y)} instead of {show(x)}"
                    if m == "model_dump":
                        sh = set(containers(o)) & set(containers(x))
                        if sh:
                            return f"the result shares {show(containers(x)[next(iter(sh))])} with the object"
                    return None
                ob.run(f"{name} {l}: {how}", fn, lambda run, out: out.text() if out.kind == "raise" else out.value, where=cls.qual)
    ctx.pmap(task, sorted(sp.t, key=lambda n: -len(sp.t[n]["fields"])))


# ---------------------------------------------------------------------- C31
RULE31 = "a valid object is accepted again, unchanged"


def c31(ctx):
    sp = Spec(ctx)
    w = ctx.w

    def task(name, part):
        ob = Ob(ctx, part, "C31", RULE31)
        cls = sp.cls(name)
        d = sp.t[name]
        root = d["extra"] == "patterned"
        holders = wrap(sp)

        def idem(key, mk_data, py=None):
            def fn():
                x = mk_data()
                a = outcome(w, lambda: sp.validate(cls, x))
                if a[0] != "ok":
                    return None
                o = a[1]
                b = frozen(o)
                r = outcome(w, lambda: sp.validate(cls, o))
                if r[0] != "ok":
                    return f"validating it again is rejected: {r[1]}"
                if not same_content(b, frozen(r[1])):
                    return f"validating it again gives {show(r[1].d)} instead of {show(o.d)}"
                for put in holders(o.cls.name):
                    r, q = outcome(w, lambda: put(o)), outcome(w, lambda: put(x))
                    if r[0] != q[0]:
                        return f"nesting it in another object {'is rejected: ' + str(r[1]) if q[0] == 'ok' else 'is accepted'} although its data is {'accepted' if q[0] == 'ok' else 'rejected'} there"
                    if r[0] == "ok" and not same_content(b, frozen(r[1])):
                        return f"nesting it in another object gives {show(r[1].d)} instead of {show(o.d)}"
                if py is not None and py in d["fields"]:
                    v = w.getattr(o, py)
                    r = outcome(w, lambda: w.setattr(o, py, v))
                    if r[0] != "ok":
                        return f"assigning its own value {show(v)} is rejected: {r[1]}"
                    if not same(w.getattr(o, py), v):
                        return f"assigning its own value {show(v)} stores {show(w.getattr(o, py))}"
                return None
            ob.run(f"{name} {key}", fn, lambda run, out: out.text() if out.kind == "raise" else out.value, where=cls.qual)
        idem("minimal", lambda: absval(sp.min(name)))
        idem("full", lambda: absval(largest(sp, name)))
        for n, f in d["fields"].items():
            fm = w.pyd.info(cls).fields.get(n)
            if fm is None:
                raise AnchorLost(f"{name}.{n} is gone")
            if root:
                for l, p in field_probes(sp, sp.term(f["type"]), fm.term):
                    idem(f"with {l}", p)
                continue
            for l, p in field_probes(sp, sp.term(f["type"]), fm.term):
                idem(f"{n} = {l}", lambda p=p, n=n: data_with(sp, name, n, p()), n)
    ctx.pmap(task, sorted(sp.t, key=lambda n: -len(sp.t[n]["fields"])))


def wrap(sp):
    """Put an object of a class where the specification allows it; gives what is stored there."""
    w = sp.w
    where = {}
    for n, d in sp.t.items():
        if d["extra"] == "patterned":
            continue
        for f, x in d["fields"].items():
            for m in (x["type"][1] if x["type"][0] == "union" else [x["type"]]):
                if m[0] == "model":
                    where.setdefault(m[1], []).append((n, f))

    def holders(name):
        for n, f in where.get(name, [])[:2]:
            yield lambda x, n=n, f=f: w.getattr(sp.validate(sp.cls(n), data_with(sp, n, f, x)), f)
    return holders


# ---------------------------------------------------------------------- C32
RULE32 = "the error for a bad reference names the path of its place"


def c32(ctx):
    import refs
    env = refs.Env(ctx)
    w = ctx.w
    V = refs.unified(w)
    slots = refs.slots_of(env)
    rep = {id(s) for s in refs.reps(slots)}
    kinds = {}
    for wire, (a, mc, objs) in env.sections.items():
        for c in objs:
            kinds.setdefault(c.name, (wire, c))

    def message(e):
        x = e.exc
        a = x.args if isinstance(x, BaseException) else conc(x.d.get("args")) if isinstance(x, Inst) and x.d.get("args") is not None else ()
        a = list(a)
        v = conc(a[0]) if a else None
        if isinstance(v, Text):
            return v.known
        return core.raw_any(v) if isinstance(v, (str, core.OStr)) else None

    def missing_token(msg, slot, st, cr):
        pos = 0
        ks = list(st["keys"])
        toks = []
        for s in slot.steps:
            if s[0] == "f" and s[1] != "root":
                toks.append(s[1])
            elif s[0] == "k":
                toks.append(core.raw_any(ks.pop(0)))
            elif s[0] == "i":
                toks.append(f"[{cr[0] if cr else 0}]")
        for t in toks:
            m = re.compile((r"(?<![\w-])" if t[:1].isalnum() else "") + re.escape(t) + (r"(?![\w-])" if t[-1:].isalnum() else "")).search(msg, pos)
            if m is None:
                return f"the step {show(mk(t))} of its place"
            pos = m.end()
        return None

    def dangling(wire):
        def b(doc, slot, steps, st):
            text = refs.cat("#/components/", wire, "/", refs.newkey("missing"))
            doc.add(steps, env.refleaf(text))
            return text
        return b

    def wrong(wire, cls):
        def b(doc, slot, steps, st):
            k = refs.newkey("K")
            env.target(doc, wire, k, env.obj(cls))
            text = refs.cat("#/components/", wire, "/", k)
            doc.add(steps, env.refleaf(text))
            return text
        return b

    def run_one(ts, part):
        for slot, nm, b, cr, names, odd in ts:
            if ctx.late():
                part.inc("not_reached")
                return
            part.inc("obligations")
            und = 0
            key = f"{nm} at {slot.text}"
            st = {}

            def fn():
                doc = refs.Doc(env.g, base="min", variants=False)
                doc.crowd = cr
                env.names, env.oddname = names, odd
                steps = env.slot_steps(slot)
                env.names = env.oddname = None
                st["keys"] = [s[1] for s in steps if s[0] == "k"]
                st["text"] = b(doc, slot, steps, st)
                try:
                    env.call(V, doc)
                except PyRaise as e:
                    msg = message(e)
                    if msg is None:
                        return e, None, None
                    return e, show(mk(msg)), missing_token(msg, slot, st, cr)
                return None
            bad = False
            for run, out in ctx.paths(fn, budget=0, part=part, max_paths=200):
                if out.kind != "return":
                    und += 1
                    ctx.undecided(key, str(out.value), part)
                    continue
                if out.value is None:
                    continue   # C16, C17
                e, msg, why = out.value
                if msg is None:
                    und += 1
                    ctx.undecided(key, "the error text is not known", part)
                    continue
                if why and (GAP in msg or run.taint):
                    und += 1
                    ctx.undecided(key, "the error text is not known", part)
                elif why:
                    ctx.violation(f"error text {slot.key}", RULE32, f"{key}: the error {msg!s:.300} does not name {why}", run, out, part=part, where=e.site)
                    bad = True
                    break
            if not und and not bad:
                part.inc("decided")
    groups = []
    for s in slots:
        exp = env.expected(s)
        wr = refs.wire_for(env, exp) or ("schemas", env.byname["Schema"])
        ts = [(s, "a dangling reference", dangling(wr[0]), None, None, None)]
        for txt, ns, odd in refs.spellings(s, False):
            ts.append((s, f"a dangling reference {txt}", dangling(wr[0]), None, ns, odd))
        if id(s) in rep or ctx.thorough:
            ww, wc = next((ww, wc) for n, (ww, wc) in kinds.items() if n not in exp and n in ("Tag", "Server"))
            ts.append((s, "a reference to an object of another kind", wrong(ww, wc), None, None, None))
            for cr in refs.crowds(ctx, ((3, 2, "inline"), (2, 0, "ref"), (12, 0, "mix"))):
                ts.append((s, f"a dangling reference {refs.crowd_text(cr)}", dangling(wr[0]), cr, None, None))
            for txt, ns, odd in refs.spellings(s, True):
                ts.append((s, f"a dangling reference {txt}", dangling(wr[0]), None, ns, odd))
                ts.append((s, f"a reference to an object of another kind {txt}", wrong(ww, wc), None, ns, odd))
        groups.append(ts)
    ctx.pmap(run_one, groups)
    ctx.part.count["places"] = len(slots)


# ---------------------------------------------------------------------- C33
RULE33 = "a subclass that overrides a documented hook decides about the references of every documented place"
HOOKED = """
from asyncapi3.models.base import Reference
from asyncapi3.models.asyncapi import AsyncAPI3
from asyncapi3.validators import TagsRefValidator, ExternalDocsRefValidator


def suits(spec, ref, internal):
    if not isinstance(spec, AsyncAPI3) or not isinstance(ref, Reference) or ref.ref.startswith("#") is not internal:
        raise RuntimeError("the hook is given something else")


class RejectExternalTags(TagsRefValidator):
    def validate_external_tag_ref(self, spec, tag_ref, context):
        suits(spec, tag_ref, False)
        raise ValueError("no external references here")


class RejectInternalTags(TagsRefValidator):
    def validate_internal_tag_ref(self, spec, tag_ref, context):
        suits(spec, tag_ref, True)
        raise ValueError("no internal references here")


class AcceptInternalTags(TagsRefValidator):
    def validate_internal_tag_ref(self, spec, tag_ref, context):
        suits(spec, tag_ref, True)


class RejectExternalDocs(ExternalDocsRefValidator):
    def validate_external_external_doc_ref(self, spec, ref, context):
        suits(spec, ref, False)
        raise ValueError("no external references here")


class RejectInternalDocs(ExternalDocsRefValidator):
    def validate_internal_external_doc_ref(self, spec, ref, context):
        suits(spec, ref, True)
        raise ValueError("no internal references here")


class AcceptInternalDocs(ExternalDocsRefValidator):
    def validate_internal_external_doc_ref(self, spec, ref, context):
        suits(spec, ref, True)
"""


def c33(ctx):
    import refs
    env = refs.Env(ctx)
    w = ctx.w
    m = w.load_source("hooked", HOOKED)
    byt = {s.text: s for s in refs.slots_of(env)}
    groups = []
    for suffix, places, wire, hook in (("Tags", refs.C19_PLACES, "tags", "tag_ref"), ("Docs", refs.C20_PLACES, "externalDocs", "external_doc_ref")):
        if wire not in env.sections:
            raise AnchorLost(f"components/{wire} is gone")
        cls = env.sections[wire][2][0]
        RE, RI, AI = (m.ns[f"{k}{suffix}"] for k in ("RejectExternal", "RejectInternal", "AcceptInternal"))
        lost = [p for p in places if "spec." + p not in byt]
        if lost:
            raise AnchorLost(f"documented places that no longer hold references: {lost}")

        def missing(e, d, sl, want, wire=wire):
            refs.sc_missing_key(e, d, sl, wire)
            return want

        def present(e, d, sl, want, wire=wire, cls=cls):
            return refs.sc_present(e, d, sl, wire, cls, want)

        def external(e, d, sl, want):
            refs.sc_external(e, d, sl, "other.yaml#/x")
            return want

        def elsewhere(e, d, sl, want):
            refs.sc_external(e, d, sl, "#/info/x")
            return want
        for p in places:
            s = byt["spec." + p]
            ts = []
            for base in ("min", "max"):
                for cr in (None, (2, 1, "inline"), (1, 1, "ref")):
                    ts += [(s, V, f"{nm} under a subclass {how}{' ' + refs.crowd_text(cr) if cr else ''}", b, want, base, cr) for V, how, nm, b, want in (
                        (RE, "that rejects external references", "an external reference", external, "reject"),
                        (RE, "that rejects external references", "an internal reference", present, "accept"),
                        (RI, "that rejects internal references", "an internal reference", present, "reject"),
                        (RI, "that rejects internal references", "an external reference", external, "accept"),
                        (AI, "that accepts internal references", "a dangling reference", missing, "accept"),
                        (AI, "that accepts internal references", "a reference elsewhere", elsewhere, "accept"),
                    ) if not (cr is not None and cr[2] == "ref" and want == "accept") and not (base == "max" and cr)]
            groups.append(ts)

    def run(ts, part):
        for s, V, nm, b, want, base, cr in ts:
            build = lambda e, d, sl, b=b, want=want: b(e, d, sl, want)
            refs.judge(ctx, env, part, "C33", s, nm, refs.crowd(build, cr) if cr else build, V, base, 0, False, RULE33, variants=False)
    ctx.pmap(run, groups)
    ctx.part.count["places"] = len(groups)


CHECKS = {"C28": c28, "C29": c29, "C30": c30, "C31": c31, "C32": c32, "C33": c33}
