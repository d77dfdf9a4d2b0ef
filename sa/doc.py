"""Abstract AsyncAPI documents.

A document is a tree of instances whose fields appear on demand.  A *plan* prescribes the
part of the tree a question is about (a reference at some place, the object it points to);
everything else is decided by a policy: absent or present, each deviation from the policy
costing one unit of the exploration budget.
"""
from __future__ import annotations

import core
from core import R, IDict, IList, AStr, AInt, ABool, NONE, MISSING, Undecided, mk
from objs import Inst
from pyd import T, NONE as TNONE


class Slot:
    """A place where a Reference may stand: steps from the document root."""

    __slots__ = ("steps", "cls", "field", "shape", "expect")

    def __init__(self, steps, cls, field, shape, expect):
        self.steps, self.cls, self.field, self.shape, self.expect = tuple(steps), cls, field, shape, expect

    @property
    def key(self):
        return f"{self.cls.name}.{self.field}{self.shape}"

    @property
    def text(self):
        out = "spec"
        for s in self.steps:
            if s[0] == "f":
                if s[1] != "root":
                    out += "." + s[1]
            elif s[0] == "k":
                out += "{}"
            elif s[0] == "i":
                out += "[]"
        return out


def strip(t):
    while t.k in ("con", "nullable", "ser", "custom", "fn"):
        t = t.a[0] if t.k in ("con", "nullable") else t.a[2] if t.k == "fn" else t.a[1]
    return t


def members(t):
    t0 = t
    opt = t.k == "nullable"
    t = strip(t)
    if t.k == "union":
        out = []
        for x in t.a[0]:
            o, ms = members(x)
            opt = opt or o
            out += ms
        return opt, out
    if t.k == "none":
        return True, []
    return opt, [t]


def item(m):
    """The item type of a list, tuple or set."""
    if m.k in ("list", "set"):
        return m.a[0]
    if m.k == "tuple" and not m.a[0]:
        return m.a[1]
    return None


class Grammar:
    """The type graph of documents."""

    def __init__(self, world, root, ref):
        self.w, self.root, self.ref = world, root, ref

    def fields(self, cls):
        return self.w.pyd.info(cls).fields

    def walk(self, visit, maxdepth=40):
        """visit(steps, term, owner class, field name, shape) for every type position."""
        def go_cls(cls, steps, stack):
            if cls in stack or len(steps) > maxdepth:
                return
            for n, fm in self.fields(cls).items():
                if fm.exclude:
                    continue
                go_term(fm.term, steps + [("f", n, cls)], stack + [cls], cls, n, "")

        def go_term(t, steps, stack, cls, n, shape):
            opt, ms = members(t)
            visit(steps, t, cls, n, shape, ms)
            for m in ms:
                if m.k == "model":
                    if m.a[0] is self.ref:
                        continue
                    go_cls(m.a[0], steps + [("as", m.a[0])], stack)
                elif item(m) is not None:
                    go_term(item(m), steps + [("i",)], stack, cls, n, shape + "[]")
                elif m.k == "dict":
                    go_term(m.a[1], steps + [("k",)], stack, cls, n, shape + "{}")
        go_cls(self.root, [], [])

    def slots(self):
        out = []

        def visit(steps, t, cls, n, shape, ms):
            if any(m.k == "model" and m.a[0] is self.ref for m in ms):
                expect = [m for m in ms if not (m.k == "model" and m.a[0] is self.ref)]
                st = [s for s in steps if s[0] != "as"]
                asx = list(steps)
                out.append((asx, cls, n, shape, expect))
        self.walk(visit)
        return [Slot(*x) for x in out]

    def container(self, slot):
        """The class that gives the slot its meaning: a map's owner field for root models."""
        return slot.key


class PNode:
    """A prescribed node."""

    __slots__ = ("kind", "cls", "kids", "text", "items", "val", "plainlist")

    def __init__(self, kind, cls=None):
        self.kind, self.cls = kind, cls
        self.kids = {}
        self.items = []
        self.text = None
        self.val = None


class Doc:
    def __init__(self, g: Grammar, base="min", siblings=False, same=None, tag="", variants=True):
        self.g, self.w = g, g.w
        self.base, self.siblings, self.same, self.tag = base, siblings, same, tag
        self.variants = variants
        self.crowd = None  # (entries before, entries after, what they are) in every list and map of the plan
        self.made = []   # the references built so far
        self.plan = PNode("model", g.root)
        self.counter = 0
        self.refcls = g.ref
        self.spec = self.node(self.plan, ("spec" + tag,))
        self.count = 0

    # ------------------------------------------------------------------ planning
    def add(self, steps, leaf):
        """Prescribe the path `steps` (f name / as cls / k key / i) ending in leaf(PNode)."""
        n = self.plan
        steps = list(steps)
        for j, s in enumerate(steps):
            nxt = steps[j + 1] if j + 1 < len(steps) else None
            if s[0] == "as":
                continue
            last = all(x[0] == "as" for x in steps[j + 1:])
            child = None
            if s[0] == "f":
                child = n.kids.get(s[1])
            elif s[0] == "k":
                for k, c in n.items:
                    if k == s[1]:
                        child = c
            elif s[0] == "i":
                child = None if len(s) < 2 or s[1] >= len(n.items) else n.items[s[1]][1]
            if child is None:
                child = leaf if last else self.blank(nxt)
                if s[0] == "f":
                    n.kids[s[1]] = child
                else:
                    n.items.append((s[1] if s[0] == "k" else None, child))
            elif last:
                if leaf.kind == "model" and child.kind == "model":
                    child.kids.update(leaf.kids)
                else:
                    raise Undecided("conflicting plan")
            n = child
        return n

    def blank(self, nxt):
        if nxt[0] == "as":
            return PNode("model", nxt[1])
        return PNode("map" if nxt[0] == "k" else "list")

    # ------------------------------------------------------------------ materialisation
    def own(self, path):
        return ("doc" + self.tag, ".".join(map(str, path)))

    def node(self, p, path):
        o = Inst(p.cls, lazy=lambda inst, name, p=p, path=path: self.get(inst, name, p, path), path=".".join(path), owner=None)
        o.owner = self.own(path)
        o.d.owner = o.owner
        if core._cur:
            R().keep.append(o)
        return o

    def build(self, p, path, term):
        if p.kind == "model":
            return self.node(p, path)
        if p.kind == "ref":
            return self.reference(p.text, path)
        if p.kind == "val":
            return p.val() if callable(p.val) else p.val
        if p.kind == "map":
            inner = self.inner(term, "dict")
            d = IDict()
            pairs = []
            sib = self.siblings and inner is not None
            pairs += [(mk(R().newkey(f"entry {i} before")), v) for i, v in enumerate(self.crowded(inner, path, 0))]
            if sib:
                self.sibling_entries(pairs, inner, path, "before")
            for k, c in p.items:
                pairs.append((k, self.build(c, path + (core.show(k) if core._cur else str(k),), inner)))
            if sib:
                self.sibling_entries(pairs, inner, path, "after")
            pairs += [(mk(R().newkey(f"entry {i} after")), v) for i, v in enumerate(self.crowded(inner, path, 1))]
            for k, v in pairs:
                d.set(k, v)
            d.owner = self.own(path)
            return d
        if p.kind == "list":
            inner = self.inner(term, "list")
            out = self.crowded(inner, path, 0)
            sib = self.siblings and inner is not None
            if sib:
                v = self.sibling_item(inner, path + ("[before]",))
                if v is not MISSING:
                    out.append(v)
            for k, c in p.items:
                out.append(self.build(c, path + (f"[{len(out)}]",), inner))
            if sib:
                v = self.sibling_item(inner, path + ("[after]",))
                if v is not MISSING:
                    out.append(v)
            r = self.sequence(term, out + self.crowded(inner, path, 1))
            if isinstance(r, IList):
                r.owner = self.own(path)
            return r
        raise Undecided(p.kind)

    def crowded(self, t, path, side):
        """Further items of a list or map on the plan's path."""
        if self.crowd is None or t is None:
            return []
        out = []
        for i in range(self.crowd[side]):
            where = path + (f"<{'after' if side else 'before'} {i}>",)
            opts = self.options(t, where, False)
            if not opts:
                return []
            refs = [o for o in opts if "reference" in o[0]]
            objs = [o for o in opts if "reference" not in o[0]]
            what = self.crowd[2]
            if what == "mix":
                what = ("inline", "ref")[i % 2]
            pick = (refs or objs) if what == "ref" else (objs or refs)
            out.append(pick[0][1]())
        return out

    def inner(self, term, k):
        if term is None:
            return None
        for m in members(term)[1]:
            if k == "dict" and m.k == k:
                return m.a[1]
            if k == "list" and item(m) is not None:
                return item(m)
        return None

    def sequence(self, term, items):
        """The items in the container the type asks for."""
        ks = [m.k for m in members(term)[1] if item(m) is not None] if term is not None else []
        if ks and ks[0] == "tuple":
            return tuple(items)
        if ks and ks[0] == "set":
            return core.ISet(items)
        return IList(items)

    def sibling_entries(self, pairs, inner, path, where):
        k = mk(R().newkey(f"{where}-sibling"))
        v = self.sibling_item(inner, path + (f"<{where}>",))
        if v is not MISSING:
            pairs.append((k, v))

    def sibling_item(self, t, path):
        opts = self.options(t, path, False)
        first = 0 if self.base == "max" else 1
        labels = [f"{'.'.join(path)}: no sibling"] + [f"{'.'.join(path)} = {l}" for l, _ in opts]
        costs = [1 if self.base == "max" else 0] + [(0 if (i == 0 and self.base == "max") else 1) for i in range(len(opts))]
        if not opts:
            return MISSING
        if self.base == "max":
            labels = labels[1:] + labels[:1]
            costs = costs[1:] + costs[:1]
            if not self.variants:
                labels, costs = labels[:1], costs[:1]
            i = R().choose(labels, costs)
            return MISSING if i == len(opts) or (not self.variants and False) else opts[i][1]()
        if not self.variants:
            return MISSING
        i = R().choose(labels, costs)
        return MISSING if i == 0 else opts[i - 1][1]()

    def reference(self, text, path):
        o = Inst(self.refcls, path=".".join(path))
        o.d.set("ref", text() if callable(text) else text)
        self.made.append((text, o))
        o.extra = None
        o.owner = self.own(path)
        o.d.owner = o.owner
        if core._cur:
            R().keep.append(o)
        return o

    def get(self, inst, name, p, path):
        fm = self.g.fields(inst.cls).get(name)
        if fm is None:
            return MISSING
        c = p.kids.get(name)
        sub = path if (name == "root" and self.w.pyd.is_root(inst.cls)) else path + (name,)
        if c is not None:
            return self.build(c, sub, fm.term)
        if fm.exclude:
            return self.w.pyd.default(fm) if not fm.required else None
        return self.free(fm, sub, p)

    def free(self, fm, path, p):
        """A field outside the plan."""
        onpath = bool(p.kids) or p is self.plan
        opt, ms = members(fm.term)
        if not fm.required and fm.default is None:
            opt = True
        label = ".".join(path)
        if all(m.k in ("str", "int", "float", "bool", "lit", "url", "enum") for m in ms):
            return self.scalar(ms, opt, label, fm, onpath)
        if not fm.required and fm.default is not None and fm.default is not MISSING and not isinstance(fm.default, (list, IDict)):
            return self.w.pyd.default(fm)
        opts = self.options(fm.term, path, onpath)
        if not fm.required and not opts:
            return None
        maxed = self.base == "max" and onpath
        if opt:
            if not self.variants or not onpath:
                if maxed:
                    return opts[0][1]()
                return None
            if maxed:
                labels = [f"{label} = {l}" for l, _ in opts] + [f"{label} absent"]
                i = R().choose(labels, [0] + [1] * len(opts))
                return None if i == len(opts) else opts[i][1]()
            labels = [f"{label} absent"] + [f"{label} = {l}" for l, _ in opts]
            i = R().choose(labels, [0] + [1] * len(opts))
            return None if i == 0 else opts[i - 1][1]()
        if not self.variants or not onpath:
            return opts[0][1]()
        i = R().choose([f"{label} = {l}" for l, _ in opts], [0] + [1] * (len(opts) - 1))
        return opts[i][1]()

    def scalar(self, ms, opt, label, fm, onpath=True):
        """A scalar field: one kind of value (any value of that kind), or absent."""
        kinds = []
        for m in ms:
            if m.k == "str":
                kinds.append(("a string", [AStr()]))
            elif m.k == "int":
                kinds.append(("an integer", [AInt()]))
            elif m.k == "float":
                kinds.append(("a number", [core.AVal("1.5", lambda: 1.5)]))
            elif m.k == "bool":
                kinds.append(("a boolean", [ABool(True), ABool(False)]))
            elif m.k == "lit":
                ss = [x for x in m.a[0] if isinstance(x, str)]
                if ss:
                    kinds.append(("a literal", [AStr(core.lang.words(ss))]))
                else:
                    kinds.append(("a literal", [core.AVal(repr(m.a[0][0]), lambda m=m: m.a[0][0])]))
            elif m.k == "url":
                from pyd import UrlV
                from objs import ExtV
                kinds.append(("a URL", [core.AVal("a URL", lambda m=m: UrlV(ExtV("pydantic." + m.a[0]), "https://example.com/x"))]))
            elif m.k == "enum":
                kinds.append(("an enum member", [core.AVal("enum", lambda m=m: m.a[0].cache["enum"].vals_()[0])]))
        full = self.base == "max" and onpath
        opts = [(f"{label} = {l}", a) for l, a in kinds]
        if opt:
            opts = opts + [(f"{label} absent", None)] if full else [(f"{label} absent", None)] + opts
        if not (self.variants and onpath):
            opts = opts[:1]
        i = R().choose([l for l, _ in opts], [0] + [1] * (len(opts) - 1))
        a = opts[i][1]
        if a is None:
            return None
        self.count += 1
        return R().sym(f"{label}", a)

    def options(self, t, path, deep):
        """Values of type t: (label, factory), the plainest object first."""
        opt, ms = members(t)
        out, refs = [], []
        for m in ms:
            if m.k == "model":
                if m.a[0] is self.refcls:
                    refs.append(("an external reference", lambda: self.reference("https://example.com/ext.json#/a", path)))
                    if self.same is not None:
                        refs.append(("the same reference", lambda: self.reference(self.same, path)))
                    continue
                c = m.a[0]
                if self.w.pyd.is_root(c):
                    out.append((f"a {c.name}", lambda c=c: self.root_model(c, path, True)))
                    if deep:
                        out.append((f"an empty {c.name}", lambda c=c: self.root_model(c, path, False)))
                else:
                    out.append((f"a {c.name}", lambda c=c: self.node(PNode("model", c), path)))
            elif item(m) is not None:
                out.append(("a list", lambda m=m: self.lst(item(m), path, True, m)))
                if deep:
                    out.append(("an empty list", lambda m=m: self.lst(item(m), path, False, m)))
            elif m.k == "dict":
                out.append(("a map", lambda m=m: self.dct(m.a[1], path, True)))
            elif m.k == "str":
                out.append(("a string", lambda: R().sym(".".join(path), [AStr()])))
            elif m.k == "int":
                out.append(("an integer", lambda: R().sym(".".join(path), [AInt()])))
            elif m.k == "float":
                out.append(("a number", lambda: 1.5))
            elif m.k == "bool":
                out.append(("a boolean", lambda: R().sym(".".join(path), [ABool(True), ABool(False)])))
            elif m.k == "lit":
                out.append(("a literal", lambda m=m: m.a[0][0]))
            elif m.k == "any":
                out.append(("a plain mapping", lambda: IDict([("a", IDict([("$ref", "#/no/such")])), ("b", ["x"])])))
            elif m.k == "url":
                from pyd import UrlV
                from objs import ExtV
                out.append(("a URL", lambda m=m: UrlV(ExtV("pydantic." + m.a[0]), "https://example.com/x")))
            elif m.k == "enum":
                out.append(("an enum member", lambda m=m: m.a[0].cache["enum"].vals_()[0]))
        return out + refs

    def first(self, t, path):
        opts = self.options(t, path, False)
        if not opts:
            return None
        return opts[0][1]()

    def root_model(self, c, path, filled):
        fm = self.g.fields(c)["root"]
        o = Inst(c, lazy=None, path=".".join(path))
        for m in members(fm.term)[1]:
            if m.k == "dict":
                o.d.set("root", self.dct(m.a[1], path, filled))
                break
            if m.k == "list":
                o.d.set("root", self.lst(m.a[0], path, filled))
                break
        else:
            o.d.set("root", self.first(fm.term, path))
        o.extra = None
        o.owner = self.own(path)
        o.d.owner = o.owner
        if core._cur:
            R().keep.append(o)
        return o

    def dct(self, t, path, filled):
        d = IDict()
        if filled:
            d.set(mk(R().newkey("sibling-key")), self.first(t, path + ("<other>",)))
        d.owner = self.own(path)
        return d

    def lst(self, t, path, filled, term=None):
        r = self.sequence(term, [self.first(t, path + ("[0]",))] if filled else [])
        if isinstance(r, IList):
            r.owner = self.own(path)
        return r
