"""Checks of the reference validators on abstract documents (C16, C17, C19, C20, C21, C22)."""
from __future__ import annotations

import core
from core import R, IDict, mk, PyRaise, AStr, Undecided, AnchorLost, show, raw_any
from objs import Inst, ClassV
from doc import Doc, Grammar, PNode, Slot, members
from check import need, table, is_value_error, classes_by_name


class Env:
    names = None        # entry names on the way to a place (symbolic when None)
    oddname = None      # entry name in a plain map, whose keys are not restricted

    def __init__(self, ctx):
        w = self.w = ctx.w
        self.ctx = ctx
        self.root = need(w, "AsyncAPI3", "asyncapi3.models.asyncapi", "asyncapi3.models")
        self.ref = need(w, "Reference", "asyncapi3.models.base", "asyncapi3.models")
        self.g = Grammar(w, self.root, self.ref)
        self.slots = self.g.slots()
        self.spec = table("references.json")
        self.comp = self.component_class()
        self.byname = {}
        def visit(steps, t, cls, n, shape, ms):
            for m in ms:
                if m.k == "model":
                    self.byname.setdefault(m.a[0].name, m.a[0])
        self.g.walk(visit)
        self.byname[self.root.name] = self.root
        self.sections = self.section_table()

    def component_class(self):
        fm = self.w.pyd.info(self.root).fields.get("components")
        if fm is None:
            raise AnchorLost("the document has no components")
        for m in members(fm.term)[1]:
            if m.k == "model" and m.a[0] is not self.ref:
                return m.a[0]
        raise AnchorLost("components has no model")

    def section_table(self):
        """wire name -> (attribute, map class or None, [object classes])"""
        out = {}
        for n, fm in self.w.pyd.info(self.comp).fields.items():
            wire = fm.ser_alias if isinstance(fm.ser_alias, str) else fm.alias or n
            for m in members(fm.term)[1]:
                if m.k == "model" and self.w.pyd.is_root(m.a[0]):
                    rt = self.w.pyd.info(m.a[0]).fields["root"].term
                    for q in members(rt)[1]:
                        if q.k == "dict":
                            objs = [x.a[0] for x in members(q.a[1])[1] if x.k == "model" and x.a[0] is not self.ref]
                            out[wire] = (n, m.a[0], objs)
        return out

    def expected(self, slot):
        names = self.spec["expect"].get(slot.key)
        if names is None:
            names = [m.a[0].name for m in slot.expect if m.k == "model"]
        return names

    # ------------------------------------------------------------------ plans
    def slot_steps(self, slot):
        out, n = [], 0
        for i, s in enumerate(slot.steps):
            if s[0] == "k":
                odd = self.oddname is not None and slot.steps[i - 1][:2] != ("f", "root")
                if odd:
                    out.append(("k", self.oddname))
                elif self.names:
                    out.append(("k", self.names[n % len(self.names)]))
                else:
                    out.append(("k", mk(R().newkey(f"key{n + 1}"))))
                n += 1
            elif s[0] == "i":
                out.append(("i", 10 ** 6))
            elif s[0] == "f":
                out.append(("f", s[1]))
            else:
                out.append(s)
        return out

    def put(self, doc, slot, text):
        leaf = PNode("ref")
        leaf.text = text
        doc.add(self.slot_steps(slot), leaf)

    def target(self, doc, wire, key, leaf):
        """Prescribe #/components/<wire>/<key>."""
        attr, mapcls, objs = self.sections[wire]
        doc.add([("f", "components"), ("as", self.comp), ("f", attr), ("as", mapcls), ("f", "root"), ("k", key)], leaf)

    def obj(self, cls):
        return PNode("model", cls)

    def refleaf(self, text):
        p = PNode("ref")
        p.text = text
        return p

    def fresh(self, doc, cls):
        """An object of the class that is not part of the plan."""
        return doc.node(PNode("model", cls), ("added",))

    def section_of(self, clsname):
        for wire, (a, mc, objs) in self.sections.items():
            if any(c.name == clsname for c in objs):
                yield wire, next(c for c in objs if c.name == clsname)

    def call(self, validator, doc):
        w = self.w
        v = w.instantiate(validator, [], {})
        return w.call(v, [doc.spec], {})


def cat(*parts):
    return mk("".join(raw_any(p) for p in parts))


def newkey(label):
    return mk(R().newkey(label))


# ---------------------------------------------------------------------- scenarios
# A scenario builds a document with the witness reference at the slot and returns the
# verdict the specification demands: "accept", "reject" or None (no demand).

def sc_missing_section(env, doc, slot, spec_wire):
    env.put(doc, slot, cat("#/components/", spec_wire, "/", newkey("missing")))
    return "reject"


def sc_missing_key(env, doc, slot, spec_wire):
    attr, mapcls, objs = env.sections[spec_wire]
    env.target(doc, spec_wire, newkey("present"), env.obj(objs[0]))
    env.put(doc, slot, cat("#/components/", spec_wire, "/", newkey("missing")))
    return "reject"


# an existing key and spellings that do not name it
NEAR = [("Ab-1", x) for x in ("ab-1", "AB-1", "Ab_1", "Ab-1 ", " Ab-1", "Ab-1/", "/Ab-1", "Ab-1x", "xAb-1", "Ab-", "Ab", "Ab-01", "Ab-1.", "'Ab-1'", "Ab-1?", "Ab-1#", "Ab-1\n", "")] + [
    ("ab", "ab-"), ("ab-", "ab"), ("a_b", "aB"), ("aB", "a_b"), ("a-b", "a_b"), ("a_b", "a-b"), ("1", "01"), ("01", "1"), ("1", "1.0"), ("0", "-0"), ("-1", "1"), ("None", ""), ("null", ""),
    ("entry", "entries"), ("entries", "entry"), ("schemas", "Schemas"), ("root", "Root")]
# empty path steps: whether the resolver skips them is left open, the documented-places validators compare exactly
EXACT = [x for x in NEAR]
NEAR = [(h, a) for h, a in NEAR if a and not a.startswith("/") and not a.endswith("/")]
# pairs of keys that may stand side by side
PAIRS = [("Ab", "ab"), ("a-b", "a_b"), ("ab", "ab-"), ("ab", "abc"), ("1", "01"), ("aB", "a_b"), ("root", "Root"), ("ab", "b"), ("-ab", "ab")]


def near_names(env, cls, n):
    """Spellings that name no field of the class, made from one of its fields."""
    taken = {x for f, fm in env.w.pyd.info(cls).fields.items() for x in (f, fm.alias or f, fm.ser_alias or f)}
    wire = wire_of(env, cls, n)
    out = []
    for x in (wire.lower(), wire.upper(), wire[:1].upper() + wire[1:], wire + "s", wire[:-1], n.replace("_", "-"), n.replace("_", ""), n.replace("_", " "), "_" + wire, wire + "_", wire + " ", n.title().replace("_", "")):
        if x and x not in taken and x not in out and x.strip():
            out.append(x)
    return out


def sc_section(env, doc, slot, wire, sec):
    k = newkey("K")
    env.target(doc, wire, k, env.obj(env.sections[wire][2][0]))
    env.put(doc, slot, cat("#/components/", sec, "/", k))
    return "reject"


def sc_near(env, doc, slot, wire, have, asked):
    attr, mapcls, objs = env.sections[wire]
    env.target(doc, wire, have, env.obj(objs[0]))
    env.put(doc, slot, "#/components/" + wire + "/" + asked)
    return "reject"


def sc_next(env, doc, slot, wire, cls, have, asked):
    """Both keys exist; a chain leads from one to the other."""
    env.target(doc, wire, asked, env.refleaf("#/components/" + wire + "/" + have))
    env.target(doc, wire, have, env.obj(cls))
    env.put(doc, slot, "#/components/" + wire + "/" + asked)
    return "accept"


def sc_text(env, doc, slot, text):
    env.put(doc, slot, text)
    return "reject"


def sc_present(env, doc, slot, wire, cls, want):
    k = newkey("K")
    env.target(doc, wire, k, env.obj(cls))
    env.put(doc, slot, cat("#/components/", wire, "/", k))
    return want


def sc_chain(env, doc, slot, wire, cls, want, hops=2):
    """slot -> components/<wire>/A -> components/<wire>/B (object)."""
    ks = [newkey(f"hop{i + 1}") for i in range(hops)]
    for i in range(hops):
        if i == hops - 1:
            env.target(doc, wire, ks[i], env.obj(cls))
        else:
            env.target(doc, wire, ks[i], env.refleaf(cat("#/components/", wire, "/", ks[i + 1])))
    env.put(doc, slot, cat("#/components/", wire, "/", ks[0]))
    return want


CROWDS = [(b, a, w) for b, a in ((2, 0), (0, 2), (1, 1), (3, 3), (0, 4), (4, 0)) for w in ("inline", "ref", "mix")] + [(12, 1, "inline"), (101, 0, "inline")]


def crowds(ctx, base=CROWDS):
    """The numbers of other entries to try: the fixed ones and those the validators' own constants suggest."""
    return list(base) + [x for n in ctx.w.sizes("asyncapi3.validators", hi=600) for x in ((n, 1, "inline"), (1, n, "inline"))]


def crowd(build, spec):
    """The scenario with further entries around every list item and map entry of the plan."""
    def b(env, doc, slot):
        doc.crowd = spec
        return build(env, doc, slot)
    return b


# entry names spelled like fields, indexes or attributes
NAMES = [("root",), ("tags", "servers"), ("0", "1"), ("messages", "payload", "headers"), ("components", "schemas"), ("-", "_"), ("N" * 1025, "n" * 1025), ("n", "N")]
ODD = ["a.b", "root", ".root", "a.root.b", ".", "a.", "x[0]", "[0]", "\\", "a\\.b", "\\a", "a b", "a/b", "~1", "", "tags", "variables", "spec.info.tags"]


def plain_keys(slot):
    return any(s[0] == "k" and slot.steps[i - 1][:2] != ("f", "root") for i, s in enumerate(slot.steps))


def spelled(build, names, odd=None):
    """The scenario with the entries on the way to the place named as given."""
    def b(env, doc, slot):
        env.names, env.oddname = names, odd
        try:
            return build(env, doc, slot)
        finally:
            env.names = env.oddname = None
    return b


def spellings(slot, full):
    """(text, names, odd) of the entry names to try at a place."""
    if full and any(s[0] == "k" for s in slot.steps):
        for ns in NAMES:
            yield f"below entries named {', '.join(map(repr, ns))}", ns, None
    if plain_keys(slot):
        for o in ODD:
            yield f"below an entry named {o!r}", None, o


def crowd_text(spec):
    return f"with {spec[0]} entries before and {spec[1]} after it ({'external references' if spec[2] == 'ref' else 'objects' if spec[2] == 'inline' else 'objects and references'})"


def sc_chain_missing(env, doc, slot, wire):
    a, b = newkey("hop1"), newkey("missing")
    env.target(doc, wire, a, env.refleaf(cat("#/components/", wire, "/", b)))
    env.put(doc, slot, cat("#/components/", wire, "/", a))
    return "reject"


def sc_cycle(env, doc, slot, wire):
    a, b = newkey("hop1"), newkey("hop2")
    env.target(doc, wire, a, env.refleaf(cat("#/components/", wire, "/", b)))
    env.target(doc, wire, b, env.refleaf(cat("#/components/", wire, "/", a)))
    env.put(doc, slot, cat("#/components/", wire, "/", a))
    return "reject"


def sc_chain_external(env, doc, slot, wire):
    a = newkey("hop1")
    env.target(doc, wire, a, env.refleaf("https://example.com/doc.yaml#/x"))
    env.put(doc, slot, cat("#/components/", wire, "/", a))
    return "accept"


def sc_root(env, doc, slot, attr, cls, want):
    """slot -> #/<attr>/K (servers, channels, operations of the document)."""
    fm = env.w.pyd.info(env.root).fields.get(attr)
    m = next((m for m in members(fm.term)[1] if m.k == "model" and env.w.pyd.is_root(m.a[0])), None) if fm else None
    if m is None:
        raise AnchorLost(f"the document has no {attr}")
    k = newkey("K")
    doc.add([("f", attr), ("as", m.a[0]), ("f", "root"), ("k", k)], env.obj(cls))
    env.put(doc, slot, cat("#/", attr, "/", k))
    return want


def sc_chmsg(env, doc, slot, want):
    """slot -> #/channels/C/messages/M."""
    r = env.w.pyd.info(env.root).fields
    chans = next(m.a[0] for m in members(r["channels"].term)[1] if m.k == "model" and env.w.pyd.is_root(m.a[0]))
    ch = env.byname["Channel"]
    msgs = next(m.a[0] for m in members(env.w.pyd.info(ch).fields["messages"].term)[1] if m.k == "model" and env.w.pyd.is_root(m.a[0]))
    c, k = newkey("C"), newkey("M")
    doc.add([("f", "channels"), ("as", chans), ("f", "root"), ("k", c), ("as", ch), ("f", "messages"), ("as", msgs), ("f", "root"), ("k", k)],
            env.obj(env.byname["Message"]))
    env.put(doc, slot, cat("#/channels/", c, "/messages/", k))
    return want


def sc_external(env, doc, slot, text):
    env.put(doc, slot, text)
    return "accept"


def judge(ctx, env, part, prop, slot, name, build, validator, base, budget, siblings, rule, max_paths=6000, variants=True, extra=None):
    """Explore one scenario at one slot and compare with the demanded verdict."""
    w = ctx.w
    if ctx.late():
        part.inc("not_reached")
        return True
    key = f"{slot.text} / {name} / {base}"
    part.inc("obligations")
    want = [None]
    good = True
    undec = 0
    docs = []

    def fn():
        doc = Doc(env.g, base=base, siblings=siblings, variants=variants)
        want[0] = build(env, doc, slot)
        if want[0] == "reject" and variants:
            doc.same = doc_text(doc, env, slot)
        docs[:] = [doc]
        return env.call(validator, doc)
    found = None
    for run, out in ctx.paths(fn, budget=budget, part=part, max_paths=max_paths):
        if out.kind == "undecided":
            undec += 1
            ctx.undecided(key, out.value, part)
            continue
        if out.kind == "diverges":
            if run.taint is None and found is None:
                found = (run, out, "does not terminate")
            continue
        if want[0] == "reject" and out.kind == "return" or want[0] == "accept" and out.kind == "raise":
            if run.taint:
                undec += 1
                ctx.undecided(key, "imprecise: " + run.taint, part)
                continue
            if found is None or len(run.decisions()) < len(found[0].decisions()):
                found = (run, out, "is accepted" if want[0] == "reject" else "is rejected")
            break
        why = extra(run, out) if extra is not None else None
        if why and not run.taint:
            found = (run, out, why)
            break
    if found:
        run, out, what = found
        ctx.violation(f"{slot.key} {name}", rule, f"{name} at {slot.text} {what}: the validator {out.text()}", run, out,
                      where=out.site or (validator.qual if isinstance(validator, ClassV) else None), part=part)
    elif undec == 0:
        part.inc("decided")
    return found is None


def doc_text(doc, env, slot):
    """Text of the planned witness reference."""
    n = doc.plan
    def find(n):
        if n.kind == "ref":
            return n.text
        for c in list(n.kids.values()) + [c for _, c in n.items]:
            r = find(c)
            if r is not None:
                return r
        return None
    # follow only the slot's own path
    for s in slot.steps:
        if s[0] == "as":
            continue
        if s[0] == "f":
            n = n.kids[s[1]]
        elif s[0] == "i":
            n = n.items[-1][1]
        else:
            nn = None
            for k, c in n.items:
                if isinstance(k, core.OStr) and R().kname.get(k.s, "").startswith("key"):
                    nn = c
            n = nn if nn is not None else n.items[-1][1]
    return n.text


def wire_for(env, names):
    for n in names:
        for wire, c in env.section_of(n):
            return wire, c
    return None


def slots_of(env, places=None):
    seen, out = set(), []
    for s in env.slots:
        if s.text in seen:
            continue
        seen.add(s.text)
        if places is None or s.text in places:
            out.append(s)
    return out


def reps(slots):
    """One slot per owner class and field: the one with the longest distinct path last."""
    best = {}
    for s in slots:
        if s.key not in best or len(s.steps) < len(best[s.key].steps):
            best[s.key] = s
    return list(best.values())


def c16(ctx):
    env = Env(ctx)
    V = need(ctx.w, "UnifiedReferencesValidator", "asyncapi3.validators.unified_references_validator", "asyncapi3.validators")
    slots = slots_of(env)
    if len(slots) < env.spec["min_slots"]:
        raise AnchorLost(f"only {len(slots)} reference places found, {env.spec['min_slots']} expected")
    rep = set(id(s) for s in reps(slots))
    tasks = []
    for s in slots:
        names = env.expected(s)
        wr = wire_for(env, names)
        wire = wr[0] if wr else "schemas"
        deep = ctx.thorough or id(s) in rep
        for base in ("min", "max"):
            for nm, b in (("a reference to a missing entry", lambda e, d, sl, wire=wire: sc_missing_key(e, d, sl, wire)),
                          ("a reference into an absent section", lambda e, d, sl, wire=wire: sc_missing_section(e, d, sl, wire)),
                          ("an unsupported reference string", lambda e, d, sl: sc_text(e, d, sl, "not/a/pointer"))):
                bud = 0
                if deep and nm.endswith("missing entry"):
                    bud = 1
                tasks.append((s, nm, b, base, bud))
        for cr in crowds(ctx, CROWDS if deep else CROWDS[:1]):
            tasks.append((s, f"a reference to a missing entry {crowd_text(cr)}", crowd(lambda e, d, sl, wire=wire: sc_missing_key(e, d, sl, wire), cr), "min", 0))
        if deep:
            for sec in near_names(env, env.comp, env.sections[wire][0]):
                tasks.append((s, f"a reference into the section {sec!r}", lambda e, d, sl, wire=wire, sec=sec: sc_section(e, d, sl, wire, sec), "min", 0))
        for txt, ns, odd in spellings(s, deep):
            tasks.append((s, f"a reference to a missing entry {txt}", spelled(lambda e, d, sl, wire=wire: sc_missing_key(e, d, sl, wire), ns, odd), "min", 0))
        for have, asked in NEAR if ctx.thorough else NEAR[:4] + NEAR[5:6] + NEAR[7:8] + NEAR[9:10]:
            if deep:
                tasks.append((s, f"a reference to {asked!r} where only {have!r} exists", lambda e, d, sl, wire=wire, h=have, a=asked: sc_near(e, d, sl, wire, h, a), "min", 0))

    def run(t, part):
        s, nm, b, base, bud = t
        judge(ctx, env, part, "C16", s, nm, b, V, base, bud, True, "an unresolvable reference at a place where references may stand must be reported")
    tasks.sort(key=lambda t: -t[4])
    ctx.pmap(run, tasks)
    ctx.part.count["places"] = len(slots)



def unified(w):
    return need(w, "UnifiedReferencesValidator", "asyncapi3.validators.unified_references_validator", "asyncapi3.validators")


RULE17 = "a reference is accepted if and only if it leads to an object of the kind its place demands"


def sc_text_with(env, doc, slot, text, want, *present):
    """A fixed reference text in a document where the given parts are present."""
    for wire in present:
        k = newkey("present")
        env.target(doc, wire, k, env.obj(env.sections[wire][2][0]))
    env.put(doc, slot, text)
    return want


def sc_chain_mixed(env, doc, slot, wire, wrong_wire, wrong_cls):
    """slot -> right section, whose entry refers to an object of the wrong kind."""
    a, b = newkey("hop1"), newkey("K")
    env.target(doc, wire, a, env.refleaf(cat("#/components/", wrong_wire, "/", b)))
    env.target(doc, wrong_wire, b, env.obj(wrong_cls))
    env.put(doc, slot, cat("#/components/", wire, "/", a))
    return "reject"


def sc_pair(env, doc, slot, other, wire, cls):
    """The same reference at a place where it belongs and at one where it does not."""
    k = newkey("K")
    env.target(doc, wire, k, env.obj(cls))
    env.put(doc, other, cat("#/components/", wire, "/", k))
    env.put(doc, slot, cat("#/components/", wire, "/", k))
    return "reject"


def sc_inside(env, doc, slot, steps, leaf, want="reject"):
    """slot -> something inside the document (that is no object of the demanded kind, where to be rejected)."""
    text, out = steps_text(env, steps)
    for more, lf in leaf():
        doc.add(out + more, lf)
    env.put(doc, slot, text)
    return want


def valued(v):
    def make():
        leaf = PNode("val")
        leaf.val = v
        return [([], leaf)]
    return make


def inside_targets(env, far=False):
    """(what, class or None, steps, leaf maker): one place for every kind of value a reference can reach."""
    out = []
    for (cn, n, shape), (steps, t, cls, _, _, ms) in sorted(positions(env, far).items(), key=lambda x: (len(x[1][0]), x[0])):
        if env.w.pyd.is_root(cls) and not shape:
            continue
        place = f"{cn}.{wire_of(env, cls, n)}{shape}"
        for m in ms:
            if m.k == "model" and m.a[0] is not env.ref:
                c = m.a[0]
                kd = c
                if env.w.pyd.is_root(c):
                    vc = value_class(env, env.w.pyd.info(c).fields["root"].term)
                    if vc is None:
                        continue
                    leaf = lambda c=c, vc=vc: [([("as", c), ("f", "root"), ("k", newkey("entry"))], env.obj(vc))]
                else:
                    leaf = lambda c=c: [([("as", c)], env.obj(c))]
                what = f"the {c.name} at {place}"
            elif m.k == "dict":
                c = None
                vc = value_class(env, m)
                kd = ("dict", vc)
                leaf = (lambda vc=vc: [([("k", newkey("entry"))], env.obj(vc))]) if vc is not None else valued(lambda: IDict([("a", "b")]))
                what = f"the plain map at {place}"
            elif m.k in ("list", "str", "bool", "int"):
                c, kd = None, m.k
                leaf = valued({"list": lambda: core.IList([]), "str": lambda: "text", "bool": lambda: True, "int": lambda: 1}[m.k])
                what = f"the {({'list': 'list', 'str': 'string', 'bool': 'boolean', 'int': 'number'})[m.k]} at {place}"
            else:
                continue
            out.append((kd, what, c, steps, leaf))
    return out


def along(a, b):
    """One path leads through (or to) the other's end."""
    a, b = ([s[:1] if s[0] != "f" else (s[0], s[1]) for s in x if s[0] != "as"] for x in (a, b))
    n = min(len(a), len(b))
    return a[:n] == b[:n]


ROOTS = (("channels", "Channel"), ("servers", "Server"), ("operations", "Operation"))


def c17(ctx):
    env = Env(ctx)
    V = unified(ctx.w)
    slots = slots_of(env)
    if len(slots) < env.spec["min_slots"]:
        raise AnchorLost(f"only {len(slots)} reference places found, {env.spec['min_slots']} expected")
    rep = set(id(s) for s in reps(slots))
    tasks = []

    def add(s, nm, b, base="min", bud=0, variants=False, sib=False, w=1):
        tasks.append((s, nm, b, base, bud, variants, sib, w))
    kinds = {}
    inside = inside_targets(env)
    deep = {}
    for kd, what, c, steps, leaf in inside_targets(env, True):
        if c is not None and (c not in deep or len(steps) > len(deep[c][1])):
            deep[c] = what, steps, leaf
    for wire, (a, mc, objs) in env.sections.items():
        for c in objs:
            kinds.setdefault(c.name, (wire, c))
    for s in slots:
        names = env.expected(s)
        isrep = id(s) in rep
        full = isrep or ctx.thorough
        good = [(wire, c) for n in names for wire, c in env.section_of(n)]
        for wire, c in good:
            add(s, f"a reference to an existing {c.name} in components/{wire}", lambda e, d, sl, wire=wire, c=c: sc_present(e, d, sl, wire, c, "accept"), bud=1, w=3)
            if isrep:
                for have, asked in PAIRS:
                    add(s, f"a chain of references {asked!r} -> {have!r} to an existing {c.name}", lambda e, d, sl, wire=wire, c=c, h=have, a=asked: sc_next(e, d, sl, wire, c, h, a))
            add(s, f"a chain of references to an existing {c.name}", lambda e, d, sl, wire=wire, c=c: sc_chain(e, d, sl, wire, c, "accept"), bud=1 if full else 0, w=2)
            if full:
                add(s, f"a reference to an existing {c.name} in components/{wire} among other content", lambda e, d, sl, wire=wire, c=c: sc_present(e, d, sl, wire, c, "accept"),
                    base="max", bud=1 if ctx.thorough else 0, variants=True, sib=True, w=5)
        if good and (isrep or ctx.thorough):
            wire, c = good[0]
            ww, wc = next((ww, wc) for n, (ww, wc) in kinds.items() if n not in names and n in ("Tag", "Server"))
            for cr in crowds(ctx):
                add(s, f"a reference to an existing {c.name} in components/{wire} {crowd_text(cr)}", crowd(lambda e, d, sl, wire=wire, c=c: sc_present(e, d, sl, wire, c, "accept"), cr))
                add(s, f"a reference to a {wc.name} in components/{ww} {crowd_text(cr)}", crowd(lambda e, d, sl, ww=ww, wc=wc: sc_present(e, d, sl, ww, wc, "reject"), cr))
        if good:
            wire, c = good[0]
            ww, wc = next((ww, wc) for n, (ww, wc) in kinds.items() if n not in names and n in ("Tag", "Server"))
            for txt, ns, odd in spellings(s, full):
                add(s, f"a reference to an existing {c.name} in components/{wire} {txt}", spelled(lambda e, d, sl, wire=wire, c=c: sc_present(e, d, sl, wire, c, "accept"), ns, odd))
                add(s, f"a reference to a {wc.name} in components/{ww} {txt}", spelled(lambda e, d, sl, ww=ww, wc=wc: sc_present(e, d, sl, ww, wc, "reject"), ns, odd))
        for attr, cn in ROOTS:
            c = env.byname[cn]
            if cn in names or full:
                add(s, f"a reference to an existing {cn} in {attr}", lambda e, d, sl, attr=attr, c=c, cn=cn, names=names: sc_root(e, d, sl, attr, c, "accept" if cn in names else "reject"), bud=1 if cn in names else 0)
        if "Message" in names or full:
            add(s, "a reference to an existing message of a channel", lambda e, d, sl, names=names: sc_chmsg(e, d, sl, "accept" if "Message" in names else "reject"), bud=1 if "Message" in names else 0)
        for n, (wire, c) in kinds.items():
            if n in names or any(c in x.mro for x in [env.byname[q] for q in names if q in env.byname]) or any(env.byname[q] in c.mro for q in names if q in env.byname):
                continue
            add(s, f"a reference to a {n} in components/{wire}", lambda e, d, sl, wire=wire, c=c: sc_present(e, d, sl, wire, c, "reject"), bud=1 if ctx.thorough and isrep else 0)
        if full:
            mine = [env.byname[q] for q in names if q in env.byname]
            done = set()
            for kd, what, c, steps, leaf in inside:
                if kd in done or along(steps, s.steps):
                    continue
                done.add(kd)
                if c is not None and (any(c in x.mro for x in mine) or any(x in c.mro for x in mine) or c.name in kinds):
                    continue
                add(s, f"a reference to {what}", lambda e, d, sl, st=steps, lf=leaf: sc_inside(e, d, sl, st, lf))
            for n, (wire, c) in kinds.items():
                if c not in deep or along(deep[c][1], s.steps) or along(s.steps, deep[c][1]):
                    continue
                what, steps, leaf = deep[c]
                want = "accept" if any(x in c.mro for x in mine) else "reject"
                if want == "reject" and any(c in x.mro for x in mine):
                    continue
                add(s, f"a reference to {what}, far inside", lambda e, d, sl, st=steps, lf=leaf, want=want: sc_inside(e, d, sl, st, lf, want))
        add(s, "a reference to the document's info", lambda e, d, sl: sc_text_with(e, d, sl, "#/info", "reject"))
        if full:
            add(s, "a reference to a string", lambda e, d, sl: sc_text_with(e, d, sl, "#/info/title", "reject"))
            add(s, "a reference to the components object", lambda e, d, sl: sc_text_with(e, d, sl, "#/components", "reject", "schemas"))
            add(s, "an external reference", lambda e, d, sl: sc_external(e, d, sl, "https://example.com/x.yaml#/a/b"))
            if good:
                wire, c = good[0]
                add(s, f"a reference to the whole section components/{wire}", lambda e, d, sl, wire=wire: sc_text_with(e, d, sl, "#/components/" + wire, "reject", wire))
                for n, (ww, wc) in list(kinds.items()):
                    if n not in names and n in ("Tag", "Server", "Schema", "Message"):
                        add(s, f"a chain from components/{wire} to a {n}", lambda e, d, sl, wire=wire, ww=ww, wc=wc: sc_chain_mixed(e, d, sl, wire, ww, wc))
                add(s, "a chain of references to an external one", lambda e, d, sl, wire=wire: sc_chain_external(e, d, sl, wire))
    # the same reference string at two places that demand different kinds
    r = [s for s in slots if id(s) in rep]
    for i, s in enumerate(r):
        names = env.expected(s)
        others = [o for o in r if not set(env.expected(o)) & set(names) and wire_for(env, env.expected(o))]
        first = [o for o in others if r.index(o) < i]
        last = [o for o in others if r.index(o) > i]
        for o in (first[:1] + first[-1:] + last[:1] + last[-1:]):
            wire, c = wire_for(env, env.expected(o))
            if conflict(s, o):
                continue
            add(s, f"a reference that also stands, rightly, at {o.text}", lambda e, d, sl, o=o, wire=wire, c=c: sc_pair(e, d, sl, o, wire, c))

    def run(ts, part):
        for s, nm, b, base, bud, variants, sib, _ in ts:
            judge(ctx, env, part, "C17", s, nm, b, V, base, bud, sib, RULE17, variants=variants)
    groups = {}
    for t in tasks:
        groups.setdefault(t[0].text, []).append(t)
    ctx.pmap(run, sorted(groups.values(), key=lambda g: -sum(t[7] for t in g)))
    ctx.part.count["places"] = len(slots)
    ctx.part.count["kinds"] = len(kinds)


def conflict(s, o):
    """Two places that cannot hold references in one planned document."""
    a, b = s.text, o.text
    return a == b or a.startswith(b) or b.startswith(a)



# ---------------------------------------------------------------------- documented places (C19, C20)
TAGS_TRAITS = ("", ".traits[]")
C19_PLACES = ["info.tags[]", "servers{}.tags[]", "components.servers{}.tags[]", "components.tags{}",
              "components.message_traits{}.tags[]", "components.operation_traits{}.tags[]"] + [
    p + o + t + ".tags[]" for p in ("", "components.") for o, ts in (
        ("channels{}", ("",)), ("operations{}", TAGS_TRAITS), ("channels{}.messages{}", TAGS_TRAITS)) for t in ts] + [
    "components.messages{}" + t + ".tags[]" for t in TAGS_TRAITS]
C20_PLACES = ["info.external_docs", "info.tags[].external_docs", "components.schemas{}.external_docs", "components.tags{}.external_docs",
              "servers{}.external_docs", "components.servers{}.external_docs", "components.external_docs{}",
              "components.operation_traits{}.external_docs", "components.message_traits{}.external_docs"] + [
    p + o + t + ".external_docs" for p in ("", "components.") for o, ts in (
        ("channels{}", ("",)), ("operations{}", ("", ".traits[]", ".traits[].tags[]")),
        ("channels{}.messages{}", ("", ".traits[]", ".traits[].tags[]"))) for t in ts] + [
    "components.messages{}" + t + ".external_docs" for t in ("", ".traits[]", ".traits[].tags[]")] + [
    # places the validator itself names besides
    p + ".external_docs" for p in ("channels{}.messages{}.headers", "channels{}.messages{}.payload", "channels{}.messages{}.tags[]", "channels{}.messages{}.traits[].headers",
                                   "operations{}.tags[]", "components.messages{}.headers", "components.messages{}.payload", "components.message_traits{}.headers")]


def logged(run, out):
    if out.kind == "return" and not any(e[0] == "log" and e[1].rsplit(".", 1)[-1] in ("warning", "warn", "error", "critical", "exception", "log") for e in run.events):
        return "is accepted without a logged warning"
    return None


def own_path_only(slot, want):
    """The reference at the slot is the only one the scenario talks about."""
    return want


def documented(ctx, prop, validator, places, wire, what):
    env = Env(ctx)
    V = need(ctx.w, validator, "asyncapi3.validators")
    byt = {s.text: s for s in slots_of(env)}
    lost = [p for p in places if "spec." + p not in byt]
    if lost:
        raise AnchorLost(f"documented places that no longer hold references: {lost}")
    if wire not in env.sections:
        raise AnchorLost(f"components/{wire} is gone")
    cls = env.sections[wire][2][0]
    pre = f"#/components/{wire}/"
    other = "schemas" if wire != "schemas" else "messages"
    ocls = env.sections[other][2][0]
    tasks = []
    rule = f"a {what} reference at a documented place is accepted exactly if it is external or names an existing entry of components/{wire}"

    def wrong(text, *present):
        return lambda e, d, sl: sc_text_with(e, d, sl, text, "reject", *present)

    def prefix_key(e, d, sl):
        k = newkey("K")
        e.target(d, wire, k, e.obj(cls))
        e.put(d, sl, cat(pre, k, newkey("tail")))
        return "reject"

    def deeper(e, d, sl):
        k = newkey("K")
        e.target(d, wire, k, e.obj(cls))
        e.put(d, sl, cat(pre, k, "/x"))
        return "reject"

    def twice(e, d, sl):
        k = newkey("K")
        e.target(d, wire, k, e.obj(cls))
        e.put(d, sl, cat(pre, pre, k))
        return "reject"

    def elsewhere(e, d, sl):
        k = newkey("K")
        e.target(d, other, k, e.obj(ocls))
        e.put(d, sl, cat(f"#/components/{other}/", k))
        return "reject"

    def elsewhere_same(e, d, sl):
        k = newkey("K")
        e.target(d, wire, k, e.obj(cls))
        e.target(d, other, k, e.obj(ocls))
        e.put(d, sl, cat(f"#/components/{other}/", k))
        return "reject"
    for p in places:
        s = byt["spec." + p]
        selfplace = p.startswith("components.") and s.cls is env.sections[wire][1]

        def add(nm, b, base="min", bud=0, variants=False, sib=False, extra=None):
            tasks.append((s, nm, b, base, bud, variants, sib, extra))
        for base in ("min", "max"):
            bud = 3 if ctx.thorough else 2
            add(f"a {what} reference to a missing entry", lambda e, d, sl: sc_missing_key(e, d, sl, wire), base, bud, True, True)
        if not selfplace:
            add(f"a {what} reference into an absent section", lambda e, d, sl: sc_missing_section(e, d, sl, wire), "min", 1, True, True)
        add(f"a {what} reference into another section", elsewhere, "min", 1, False)
        add(f"a {what} reference into another section with an entry of the same name", elsewhere_same, "min", 1, False)
        for cr in crowds(ctx):
            add(f"a {what} reference to a missing entry {crowd_text(cr)}", crowd(lambda e, d, sl: sc_missing_key(e, d, sl, wire), cr))
            add(f"a {what} reference to an existing entry {crowd_text(cr)}", crowd(lambda e, d, sl: sc_present(e, d, sl, wire, cls, "accept"), cr))
        add("the reference '#'", wrong("#"))
        add(f"the reference '#/components/{wire}'", wrong(f"#/components/{wire}", wire))
        add(f"the reference '{pre}'", wrong(pre, wire))
        add("the reference '#/info'", wrong("#/info"))
        add("a reference to a longer name than that of an entry", prefix_key, "min", 1)
        add("a reference below an entry", deeper, "min", 1)
        add("a reference with the section written twice", twice, "min", 1)
        for have, asked in EXACT:
            add(f"a {what} reference to {asked!r} where only {have!r} exists", lambda e, d, sl, h=have, a=asked: sc_near(e, d, sl, wire, h, a))
        for sec in (wire.upper(), wire.lower(), wire + "s", wire[:-1], wire.title()) + (("external_docs",) if wire == "externalDocs" else ()):
            if sec != wire:
                add(f"a {what} reference into the section {sec!r}", lambda e, d, sl, sec=sec: sc_text_with(e, d, sl, f"#/components/{sec}/present", "reject", wire))
        add(f"a {what} reference to an existing entry", lambda e, d, sl: sc_present(e, d, sl, wire, cls, "accept"), "min", 1)
        add(f"a {what} reference to an existing entry among other content", lambda e, d, sl: sc_present(e, d, sl, wire, cls, "accept"), "max", 1, True, True)
        for ext in ("https://example.com/x.yaml#/a", "./common.yaml#/tags/x", "other.json", "/abs/x"):
            add(f"the external reference {ext!r}", lambda e, d, sl, ext=ext: sc_external(e, d, sl, ext), "min", 0, extra=logged)

    def run(ts, part):
        for s, nm, b, base, bud, variants, sib, extra in ts:
            judge(ctx, env, part, prop, s, nm, b, V, base, bud, sib, rule, variants=variants, extra=extra)
    groups = {}
    for t in tasks:
        groups.setdefault((t[0].text, t[4] and t[1]), []).append(t)
    # documents whose references are all external or absent
    for base in ("min", "max"):
        for sib in (False, True):
            groups[("valid", base, sib)] = [(None, f"a valid document ({base}{', siblings' if sib else ''})", None, base, 2 if base == "min" or ctx.thorough else 1, True, sib, None)]

    def run2(ts, part):
        if ts[0][0] is not None:
            return run(ts, part)
        _, nm, _, base, bud, variants, sib, _ = ts[0]
        valid_doc(ctx, env, part, nm, V, base, bud, sib, rule)
    ctx.pmap(run2, sorted(groups.values(), key=lambda g: (g[0][0] is not None, -max(t[4] for t in g))))
    ctx.part.count["places"] = len(places)


def valid_doc(ctx, env, part, name, V, base, bud, sib, rule):
    part.inc("obligations")
    ok = True
    for run, out in ctx.paths(lambda: env.call(V, Doc(env.g, base=base, siblings=sib)), budget=bud, part=part, max_paths=20000):
        if out.kind == "undecided":
            ok = False
            ctx.undecided(name, out.value, part)
        elif out.kind == "raise" and not run.taint:
            ctx.violation(f"valid {base}", rule, f"{name} is rejected: {out.text()}", run, out, part=part)
            return
    if ok:
        part.inc("decided")


def c19(ctx):
    documented(ctx, "C19", "TagsRefValidator", C19_PLACES, "tags", "tag")


def c20(ctx):
    documented(ctx, "C20", "ExternalDocsRefValidator", C20_PLACES, "externalDocs", "external documentation")



# ---------------------------------------------------------------------- the resolver itself (C18)
def resolver(w):
    return need(w, "resolve_reference", "asyncapi3.validators.utils", "asyncapi3.validators")


def wire_of(env, cls, field):
    fm = env.w.pyd.info(cls).fields[field]
    return fm.ser_alias if isinstance(fm.ser_alias, str) else fm.alias or field


def positions(env, far=False):
    """Shortest (or longest) path without list steps to every (class, field) position."""
    best = {}

    def visit(steps, t, cls, n, shape, ms):
        if any(s[0] == "i" for s in steps) or "[]" in shape:
            return
        k = (cls.name, n, shape)
        if k not in best or (len(steps) > len(best[k][0]) if far else len(steps) < len(best[k][0])):
            best[k] = (list(steps), t, cls, n, shape, ms)
    env.g.walk(visit)
    return best


def steps_text(env, steps):
    """Reference text of a path and the same path with named keys."""
    parts, out = [], []
    n = 0
    for s in steps:
        if s[0] == "f":
            if not (s[1] == "root" and env.w.pyd.is_root(s[2])):
                parts.append("/" + wire_of(env, s[2], s[1]))
            out.append(("f", s[1]))
        elif s[0] == "k":
            n += 1
            k = newkey(f"key{n}")
            parts += ["/", k]
            out.append(("k", k))
        else:
            out.append(s)
    return cat("#", *parts), out


def follow(env, doc, out):
    o = doc.spec
    for s in out:
        if s[0] == "f":
            o = env.w.getattr(o, s[1])
        elif s[0] == "k":
            o = o.get(s[1])
    return o


def result_object(env, r):
    if r is None:
        return None
    return env.w.getattr(r, "resolved_object")


class Verdict:
    """What a scenario demands of a call."""

    def __init__(self, want, obj=None):
        self.want, self.obj = want, obj


def obligation(ctx, env, part, prop, name, scenario, rule, budget=1, max_paths=4000, max_steps=400_000, only_value_error=False):
    """scenario() -> (thunk, want, object getter) executed on every path."""
    if ctx.late():
        part.inc("not_reached")
        return
    part.inc("obligations")
    undec = 0
    st = [None]
    depth = 0

    def fn():
        thunk, v = scenario()
        st[0] = v
        r = thunk()
        return r
    for run, out in ctx.paths(fn, budget=budget, part=part, max_paths=max_paths, max_steps=max_steps):
        v = st[0]
        if out.kind == "undecided":
            undec += 1
            ctx.undecided(name, out.value, part)
            continue
        depth = max(depth, run.maxdepth)
        why = None
        if out.kind == "diverges":
            why = "does not terminate"
        elif out.kind == "raise" and not is_value_error(ctx.w, out.exc) and not ctx.w.exc_matches(out.exc, (AssertionError,)):
            why = out.text()
        elif only_value_error or v.want is None:
            pass
        elif v.want == "raise" and out.kind == "return":
            why = f"is not rejected: {out.text()}"
        elif v.want == "object":
            if out.kind == "raise":
                why = f"is rejected: {out.text()}"
            else:
                got, exp = out.value
                if got is not exp:
                    why = f"leads to {show(got)} instead of {show(exp)}"
        elif v.want == "none":
            if out.kind == "raise":
                why = f"is rejected: {out.text()}"
            elif out.value[0] is not None:
                why = f"resolves to {show(out.value[0])}"
            elif logged(run, out):
                why = logged(run, out)
        if why:
            if run.taint:
                undec += 1
                ctx.undecided(name, "imprecise: " + run.taint, part)
                continue
            ctx.violation(name, rule, f"{name} {why}", run, out, part=part)
            return None
    if undec == 0:
        part.inc("decided")
    return depth


RULE18 = "a reference is followed along wire names and keys to exactly one object, or rejected with a value error; resolution terminates"


def c18(ctx):
    w = ctx.w
    w.memo = None
    env = Env(ctx)
    f = resolver(w)
    tasks = []

    def call(text, doc):
        return w.call(f, [], {"ref": text, "spec": doc.spec})

    def add(name, scenario, budget=1):
        tasks.append((name, scenario, budget))

    here = []

    def nav(steps, t, cls, n, shape, ms):
        def scenario():
            doc = Doc(env.g, variants=False)
            text, out = steps_text(env, steps)
            m = next(m for m in ms if m.k == "model" and m.a[0] is not env.ref) if any(m.k == "model" and m.a[0] is not env.ref for m in ms) else None
            if m is not None and not env.w.pyd.is_root(m.a[0]):
                doc.add(out + [("as", m.a[0])], env.obj(m.a[0]))
            elif m is not None:
                fm = env.w.pyd.info(m.a[0]).fields["root"]
                doc.add(out + [("as", m.a[0]), ("f", "root"), ("k", newkey("entry"))], env.obj(value_class(env, fm.term)))
            else:
                d = next(m for m in ms if m.k == "dict")
                c = value_class(env, d)
                if c is None:
                    leaf = PNode("val")
                    leaf.val = lambda: IDict([("a", "b")])
                    doc.add(out, leaf)
                else:
                    doc.add(out + [("k", newkey("entry"))], env.obj(c))
            here[:] = [doc, raw_any(text)]
            return (lambda: (result_object(env, call(text, doc)), follow(env, doc, out))), Verdict("object")
        return scenario

    def absent(steps, cls, n):
        def scenario():
            doc = Doc(env.g, variants=False)
            text, out = steps_text(env, steps)
            leaf = PNode("val")
            leaf.val = lambda: None
            doc.add(out, leaf)
            return (lambda: call(text, doc)), Verdict("raise")
        return scenario

    def below(steps, val, extra):
        def scenario():
            doc = Doc(env.g, variants=False)
            text, out = steps_text(env, steps)
            leaf = PNode("val")
            leaf.val = val
            doc.add(out, leaf)
            return (lambda: call(cat(text, "/", extra() if callable(extra) else extra), doc)), Verdict("raise")
        return scenario

    def unknown_field(steps, c):
        def scenario():
            doc = Doc(env.g, variants=False)
            text, out = steps_text(env, steps)
            doc.add(out + [("as", c)], env.obj(c))
            return (lambda: call(cat(text, "/", newkey("no such name")), doc)), Verdict("raise")
        return scenario

    def near_field(steps, t, cls, n, shape, ms, asked):
        def scenario():
            go, _ = nav(steps, t, cls, n, shape, ms)()
            doc = here[0]
            text = here[1].rpartition("/")[0] + "/" + asked
            return (lambda: call(mk(text), doc)), Verdict("raise")
        return scenario

    def missing_key(steps, c):
        def scenario():
            doc = Doc(env.g, variants=False)
            text, out = steps_text(env, steps)
            fm = env.w.pyd.info(c).fields["root"]
            doc.add(out + [("as", c), ("f", "root"), ("k", newkey("entry"))], env.obj(value_class(env, fm.term)))
            return (lambda: call(cat(text, "/", newkey("missing")), doc)), Verdict("raise")
        return scenario
    def near_key(steps, c, have, asked):
        def scenario():
            doc = Doc(env.g, variants=False)
            text, out = steps_text(env, steps)
            fm = env.w.pyd.info(c).fields["root"]
            doc.add(out + [("as", c), ("f", "root"), ("k", have)], env.obj(value_class(env, fm.term)))
            return (lambda: call(cat(text, "/", asked), doc)), Verdict("raise")
        return scenario

    def next_key(steps, c, have, asked):
        def scenario():
            doc = Doc(env.g, variants=False)
            text, out = steps_text(env, steps)
            fm = env.w.pyd.info(c).fields["root"]
            vc = value_class(env, fm.term)
            for k in (have, asked):
                doc.add(out + [("as", c), ("f", "root"), ("k", k)], env.obj(vc))
            return (lambda: (result_object(env, call(cat(text, "/", asked), doc)), follow(env, doc, out + [("f", "root"), ("k", asked)]))), Verdict("object")
        return scenario
    nfields = 0
    seen_cls = set()
    for (cn, n, shape), (steps, t, cls, _, _, ms) in sorted(positions(env).items(), key=lambda x: x[0]):
        place = f"{cn}.{wire_of(env, cls, n)}{shape}"
        if env.w.pyd.is_root(cls) and not shape:
            continue
        nfields += 1
        has_model = any(m.k == "model" and m.a[0] is not env.ref for m in ms)
        if has_model or any(m.k == "dict" for m in ms):
            add(f"the reference to {place}", nav(steps, t, cls, n, shape, ms))
            if not shape and n != "root":
                for asked in near_names(env, cls, n):
                    add(f"a reference to {asked!r} where only {place} exists", near_field(steps, t, cls, n, shape, ms, asked), 0)
        opt = members(t)[0]
        if opt and not shape and n != "root":
            add(f"a reference to the absent {place}", absent(steps, cls, n))
        if any(m.k in ("list", "tuple", "set") for m in ms):
            add(f"a reference into the list {place}", below(steps, lambda: core.IList([IDict([("0", "x")])]), "0"))
        if any(m.k == "str" for m in ms):
            add(f"a reference into the string {place}", below(steps, lambda: "text", lambda: newkey("x")))
        for m in ms:
            if m.k == "model" and m.a[0] is not env.ref and m.a[0] not in seen_cls:
                seen_cls.add(m.a[0])
                if env.w.pyd.is_root(m.a[0]):
                    if value_class(env, env.w.pyd.info(m.a[0]).fields["root"].term):
                        add(f"a reference to a missing entry of {place}", missing_key(steps, m.a[0]))
                        for have, asked in NEAR:
                            add(f"a reference to {asked!r} in {place} where only {have!r} exists", near_key(steps, m.a[0], have, asked), 0)
                        for a, b in PAIRS:
                            for have, asked in ((a, b), (b, a)):
                                add(f"a reference to {asked!r} in {place} beside {have!r}", next_key(steps, m.a[0], have, asked), 0)
                else:
                    add(f"a reference to an unknown field of {m.a[0].name}", unknown_field(steps, m.a[0]), 0)

    # chains and cycles
    def chain(n, end, wires=("schemas", "messages", "tags", "channels")):
        def scenario():
            doc = Doc(env.g, variants=False)
            ks = [newkey(f"hop{i}") for i in range(n)]
            ws = [wires[i % len(wires)] if end != "same" else "schemas" for i in range(n)]
            texts = [cat("#/components/", ws[i], "/", ks[i]) for i in range(n)]
            last = [None]
            for i in range(n):
                if i < n - 1:
                    env.target(doc, ws[i], ks[i], env.refleaf(texts[i + 1]))
            attr, mc, objs = env.sections[ws[n - 1]]
            v = Verdict("raise")
            if end == "object":
                env.target(doc, ws[-1], ks[-1], env.obj(objs[0]))
                v = Verdict("object")
            elif end == "external":
                env.target(doc, ws[-1], ks[-1], env.refleaf("https://example.com/a#/b"))
                v = Verdict("none")
            elif end == "missing":
                env.target(doc, ws[-1], ks[-1], env.refleaf(cat("#/components/", ws[-1], "/", newkey("missing"))))
            elif end == "unsupported":
                env.target(doc, ws[-1], ks[-1], env.refleaf("other.yaml#/x"))
            elif end == "absent":
                env.target(doc, ws[-1], ks[-1], env.refleaf(cat("#/components/replies/", newkey("missing"))))
            else:
                env.target(doc, ws[-1], ks[-1], env.refleaf(texts[end]))

            def thunk():
                r = call(texts[0], doc)
                if v.want == "object":
                    o = env.w.getattr(env.w.getattr(env.w.getattr(doc.spec, "components"), attr), "root")
                    return result_object(env, r), o.get(ks[-1])
                return (result_object(env, r), None)
            return thunk, v
        return scenario
    top = 8 if ctx.thorough else 6
    for n in range(1, top):
        for e in ("object", "external", "missing", "unsupported", "absent"):
            add(f"a chain of {n} references ending in {'an ' + e if e[0] in 'aeou' else 'a ' + e} one", chain(n, e), 1 if n < 4 else 0)
        for e in range(n):
            add(f"a chain of {n} references that returns to its hop {e + 1}", chain(n, e), 1 if n < 4 else 0)

    for n in (20, 60, 300) + ((1500,) if ctx.thorough else ()):
        for e in ("object", "external", "missing"):
            add(f"a chain of {n} references ending in {'an ' + e if e[0] in 'aeou' else 'a ' + e} one", chain(n, e), 0)
        for e in (0, n // 2, n - 1):
            add(f"a chain of {n} references that returns to its hop {e + 1}", chain(n, e), 0)

    def pair_chain(have, asked):
        def scenario():
            doc = Doc(env.g, variants=False)
            env.target(doc, "tags", asked, env.refleaf("#/components/tags/" + have))
            env.target(doc, "tags", have, env.obj(env.byname["Tag"]))
            start = newkey("start")
            env.target(doc, "tags", start, env.refleaf("#/components/tags/" + asked))

            def thunk():
                r = call(cat("#/components/tags/", start), doc)
                return result_object(env, r), env.w.getattr(env.w.getattr(env.w.getattr(doc.spec, "components"), env.sections["tags"][0]), "root").get(have)
            return thunk, Verdict("object")
        return scenario
    for a, b in PAIRS:
        add(f"a chain over the entries {a!r} and {b!r}", pair_chain(a, b), 0)
        add(f"a chain over the entries {b!r} and {a!r}", pair_chain(b, a), 0)

    def root_chain(attr, cn, wire):
        def scenario():
            doc = Doc(env.g, variants=False)
            fm = env.w.pyd.info(env.root).fields[attr]
            m = next(m for m in members(fm.term)[1] if m.k == "model")
            a, b = newkey("A"), newkey("B")
            doc.add([("f", attr), ("as", m.a[0]), ("f", "root"), ("k", a)], env.refleaf(cat("#/components/", wire, "/", b)))
            env.target(doc, wire, b, env.obj(env.byname[cn]))

            def thunk():
                r = call(cat("#/", attr, "/", a), doc)
                o = env.w.getattr(env.w.getattr(env.w.getattr(doc.spec, "components"), env.sections[wire][0]), "root").get(b)
                return result_object(env, r), o
            return thunk, Verdict("object")
        return scenario
    for attr, cn in ROOTS:
        add(f"a reference to {attr} whose entry refers to components/{attr}", root_chain(attr, cn, attr))

    def twice(order):
        def scenario():
            doc = Doc(env.g, variants=False)
            a, b = newkey("A"), newkey("B")
            ta, tb = cat("#/components/schemas/", a), cat("#/components/schemas/", b)
            env.target(doc, "schemas", a, env.refleaf(tb))
            env.target(doc, "schemas", b, env.obj(env.byname["Schema"]))

            def thunk():
                for x in order[:-1]:
                    call((ta, tb)[x], doc)
                r = call((ta, tb)[order[-1]], doc)
                o = env.w.getattr(env.w.getattr(env.w.getattr(doc.spec, "components"), env.sections["schemas"][0]), "root").get(b)
                return result_object(env, r), o
            return thunk, Verdict("object")
        return scenario
    for order in ((0, 0), (0, 1), (1, 0), (1, 1)):
        add(f"resolving references one after another {order}", twice(order))

    def fixed(text, want, present=()):
        def scenario():
            doc = Doc(env.g, variants=False)
            for wr in present:
                env.target(doc, wr, newkey("present"), env.obj(env.sections[wr][2][0]))
            t = text() if callable(text) else text
            return (lambda: (result_object(env, call(t, doc)), None)), Verdict(want)
        return scenario
    for t in ("", "#", "#/", "#//", "x", "/channels/x", "channels/x", "file.yaml#/x", "ftp://example.com/x", "mailto:a", "./x#/channels/y", "//host/x", "HTTP", "httpx"):
        add(f"the reference {t!r}", fixed(t, "raise"))
    for t in ("http://example.com", "https://example.com/a#/b", "http://", "https://x"):
        add(f"the reference {t!r}", fixed(t, "none"))
    for t, p in (("#/nothing", ()), ("#/components/nothing", ("schemas",)), ("#/components/schemas", ()), ("#/components", ()), ("#/channels", ()), ("#/info/title/x", ()), ("#/info/description", ()),
                 ("#/asyncapi/x", ())):
        add(f"the reference {t!r}", fixed(t, "raise", p))
    def dotted(form):
        def scenario():
            doc = Doc(env.g, variants=False)
            k = newkey("K")
            env.target(doc, "schemas", k, env.obj(env.byname["Schema"]))
            a, _, b = form.partition("{}")
            return (lambda: (result_object(env, call(cat(a, k, b), doc)), None)), Verdict("raise")
        return scenario
    for t in ("#/components/nothing/../schemas/{}", "#/components/./schemas/{}", "#/./components/schemas/{}", "#/components/schemas/../schemas/{}", "#/../components/schemas/{}",
              "#/components/schemas/{}/.", "#/components/schemas/{}/..", "#/components/schemas/./{}", "#/components/schemas/{}?x", "#/components/schemas/{}#", "#/components/schemas/{}#/title",
              "#/components/schemas/ {}", "#/components /schemas/{}", "#/components/schemas.{}", "#/components.schemas/{}", "#/components/schemas/{},{}", "#/components/schemas/*", "#/components/*/{}",
              "#/spec/components/schemas/{}", "#/components/root/schemas/{}", "#/components/schemas/root/{}", "#.components.schemas.{}", "#/components\\schemas\\{}"):
        add(f"the reference {t.replace('{}', 'K')!r}", dotted(t), 0)
    add("any reference that is neither internal nor http(s)", fixed(lambda: R().sym("ref", [core.AStr(unsupported_lang())]), "raise"), None)
    add("any http(s) reference", fixed(lambda: R().sym("ref", [core.AStr(http_lang())]), "none"), None)

    def run(t, part):
        name, scenario, budget = t
        obligation(ctx, env, part, "C18", name, scenario, RULE18, budget)
    ctx.pmap(run, tasks)
    ctx.part.count["positions"] = nfields
    # the depth of the resolver's own recursion must not grow with the chain
    depths = []
    for n in (3, 6, 9, 12):
        p = type(ctx.part)()
        depths.append(obligation(ctx, env, p, "C18", f"chain of {n}", chain(n, "object", ("schemas",)), RULE18, 0))
        ctx.part.functions |= p.functions
    ctx.part.inc("obligations")
    if None in depths:
        ctx.undecided("depth of resolution", f"depths {depths}")
    else:
        ctx.part.inc("decided")
        ctx.part.count["resolver_depth"] = depths[-1]
        if depths[0] < depths[1] < depths[2] < depths[3]:
            ctx.violation("resolution depth", RULE18, f"each hop of a reference chain nests {(depths[3] - depths[0]) / 9:.0f} more calls: a long valid chain ends in a RecursionError instead of resolving",
                          where=f.qual)


def value_class(env, term):
    for q in members(term)[1]:
        if q.k == "dict":
            return value_class(env, q.a[1])
        if q.k == "model" and q.a[0] is not env.ref:
            return q.a[0]
    return None


def http_lang():
    import lang
    return lang.starts("http://") | lang.starts("https://")


def unsupported_lang():
    import lang
    return ~(http_lang() | lang.starts("#"))



# ---------------------------------------------------------------------- read-only, memoryless (C21)
RULE21 = "a validator neither writes to the document nor replaces it, and its verdict depends on this document alone"


def shipped(w):
    """Every validator class the package exports."""
    m = w.modules.get("asyncapi3.validators")
    if m is None:
        raise AnchorLost("asyncapi3.validators is gone")
    out = []
    for n, v in m.ns.items():
        if isinstance(v, ClassV) and w.typeattr(v, "__call__") is not None and v not in out:
            out.append(v)
    if len(out) < 15:
        raise AnchorLost(f"only {len(out)} shipped validators found")
    return out


def doc_writes(run):
    return [e for e in run.events if e[0] == "mutate" and str(e[1][0]).startswith("doc")]


def remembered(w, roots, tag):
    """Does anything reachable from the roots hold an object of the document?"""
    seen, todo = set(), list(roots)
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        o = getattr(v, "owner", None)
        if isinstance(o, tuple) and o and o[0] == "doc" + tag:
            return True
        if isinstance(v, Inst):
            todo.append(v.d)
        elif isinstance(v, IDict):
            todo += [x for p in v.pairs if p is not None for x in p]
        elif isinstance(v, core.ISet):
            todo.append(v.d)
        elif isinstance(v, (list, tuple, set, frozenset)):
            todo += list(v)
        elif isinstance(v, dict):
            todo += list(v.keys()) + list(v.values())
        elif isinstance(v, ClassV):
            todo.append(v.ns)
    return False


def c21(ctx):
    w = ctx.w
    env = Env(ctx)
    vs = shipped(w)
    U = unified(w)
    Tg = need(w, "TagsRefValidator", "asyncapi3.validators")
    Ed = need(w, "ExternalDocsRefValidator", "asyncapi3.validators")
    slots = slots_of(env)
    rp = reps(slots)
    tasks = []

    def plain(V, nm, base, bud, sib, build=None, slot=None):
        def fn(part):
            if ctx.late():
                part.inc("not_reached")
                return
            name = f"{V.name} on {nm}"
            part.inc("obligations")
            undec = 0
            box = []

            def go():
                doc = Doc(env.g, base=base, siblings=sib)
                if build:
                    build(env, doc, slot)
                box[:] = [doc]
                return env.call(V, doc)
            for run, out in ctx.paths(go, budget=bud, part=part, max_paths=6000):
                why = None
                wr = doc_writes(run)
                if wr:
                    why = f"writes to the document: {wr[0][1][1]} {wr[0][2]}"
                elif out.kind == "return" and out.value is not box[0].spec:
                    why = f"returns {show(out.value)} instead of the document"
                elif out.kind == "undecided":
                    undec += 1
                    ctx.undecided(name, out.value, part)
                    continue
                if why:
                    if run.taint and not wr:
                        undec += 1
                        continue
                    ctx.violation(f"{V.name} {'writes' if wr else 'returns'}", RULE21, f"{name}: {why}", run, out, part=part, where=out.site or V.qual)
                    return
            if undec == 0:
                part.inc("decided")
        return fn
    bud = 2 if ctx.thorough else 1
    for V in vs:
        stub = V not in (U, Tg, Ed)
        for base in ("min", "max"):
            tasks.append(plain(V, f"a {base}imal document", base, bud if not stub or base == "min" else bud, True))
    for V, places in ((U, None), (Tg, C19_PLACES), (Ed, C20_PLACES)):
        for s in (rp if places is None else [x for x in slots if x.text[5:] in places]):
            wr = wire_for(env, env.expected(s)) or ("schemas", env.byname["Schema"])
            for nm, b in (("an accepted reference", lambda e, d, sl, wr=wr: sc_present(e, d, sl, wr[0], wr[1], "accept")),
                          ("a chain", lambda e, d, sl, wr=wr: sc_chain(e, d, sl, wr[0], wr[1], "accept")),
                          ("a dangling reference", lambda e, d, sl, wr=wr: sc_missing_key(e, d, sl, wr[0])),
                          ("an external reference", lambda e, d, sl: sc_external(e, d, sl, "https://example.com/x"))):
                tasks.append(plain(V, f"a document with {nm} at {s.text}", "max" if ctx.thorough else "min", 0, ctx.thorough, b, s))
                if nm.startswith("an accepted"):
                    tasks.append(plain(V, f"a full document with {nm} at {s.text}", "max", 0, True, b, s))

    # two documents, one after the other
    def sequence(V, s, first, second, want, nm, same_instance, alias):
        def fn(part):
            if ctx.late():
                part.inc("not_reached")
                return
            part.inc("obligations")
            undec = 0
            name = f"{V.name} on {nm} at {s.text}" + ("" if same_instance else " (new validator object)")

            def go():
                v = w.instantiate(V, [], {})
                a = Doc(env.g, base="min", variants=False, tag="A")
                names = R().nkeys
                first(env, a, s)
                w.idpath = ("docA", "docB") if alias else None
                try:
                    try:
                        w.call(v, [a.spec], {})
                    except PyRaise:
                        pass
                    if alias and remembered(w, [v] + [m.ns for m in w.modules.values()] + vs, "A"):
                        w.idpath = None
                    b = Doc(env.g, base="min", variants=False, tag="B")
                    used = R().nkeys
                    R().nkeys = names
                    second(env, b, s)
                    R().nkeys = max(used, R().nkeys)
                    if not same_instance:
                        v = w.instantiate(V, [], {})
                    return w.call(v, [b.spec], {})
                finally:
                    w.idpath = None
            for run, out in ctx.paths(go, budget=0, part=part):
                if out.kind == "undecided":
                    undec += 1
                    ctx.undecided(name, out.value, part)
                    continue
                if want == "accept" and out.kind != "return" or want == "reject" and out.kind == "return":
                    if run.taint:
                        undec += 1
                        ctx.undecided(name, run.taint, part)
                        continue
                    ctx.violation(f"{V.name} remembers", RULE21, f"{name}: the second document is {'accepted' if out.kind == 'return' else 'rejected: ' + out.text()}, on its own it is {want}ed",
                                  run, out, part=part, where=out.site or V.qual)
                    return
            if undec == 0:
                part.inc("decided")
        return fn

    def good(wr):
        return lambda e, d, sl: sc_present(e, d, sl, wr[0], wr[1], "accept")

    def gone(wr):
        def b(e, d, sl):
            k = newkey("K")
            e.put(d, sl, cat("#/components/", wr[0], "/", k))
        return b

    def other_kind(wr, ww, wc):
        """The entry is there but refers on to an object of another kind."""
        def b(e, d, sl):
            k = newkey("K")
            x = newkey("X")
            e.target(d, wr[0], k, e.refleaf(cat("#/components/", ww, "/", x)))
            e.target(d, ww, x, e.obj(wc))
            e.put(d, sl, cat("#/components/", wr[0], "/", k))
        return b

    def cyc(wr):
        def b(e, d, sl):
            k = newkey("K")
            e.target(d, wr[0], k, e.refleaf(cat("#/components/", wr[0], "/", k)))
            e.put(d, sl, cat("#/components/", wr[0], "/", k))
        return b
    # one document that is changed between two validations
    def edited(V, s, wr, start, change, want, nm, same_instance):
        def fn(part):
            if ctx.late():
                part.inc("not_reached")
                return
            part.inc("obligations")
            undec = 0
            name = f"{V.name} on {nm} at {s.text}" + ("" if same_instance else " (new validator object)")
            attr = env.sections[wr[0]][0]

            def go():
                v = w.instantiate(V, [], {})
                doc = Doc(env.g, base="min", variants=False)
                k = newkey("K")
                text = cat("#/components/", wr[0], "/", k)
                env.target(doc, wr[0], newkey("other"), env.obj(wr[1]))
                if start == "good":
                    env.target(doc, wr[0], k, env.obj(wr[1]))
                elif start == "linked":
                    env.target(doc, wr[0], k, env.refleaf(cat("#/components/", wr[0], "/", newkey("L"))))
                env.put(doc, s, text)
                entries = follow(env, doc, [("f", "components"), ("f", attr), ("f", "root")])
                try:
                    w.call(v, [doc.spec], {})
                except PyRaise:
                    pass
                if change == "removed":
                    entries.delete(k)
                elif change == "added":
                    entries.set(k, env.fresh(doc, wr[1]))
                elif change == "dangling":
                    entries.set(k, doc.reference(cat("#/components/", wr[0], "/", newkey("gone")), ("changed",)))
                elif change == "section":
                    w.getattr(doc.spec, "components").d.set(attr, None)
                elif change == "text":
                    for t, o in doc.made:
                        if t is text:
                            o.d.set("ref", cat("#/components/", wr[0], "/", newkey("gone")))
                if not same_instance:
                    v = w.instantiate(V, [], {})
                return w.call(v, [doc.spec], {})
            for run, out in ctx.paths(go, budget=0, part=part):
                if out.kind == "undecided":
                    undec += 1
                    ctx.undecided(name, out.value, part)
                    continue
                if want == "accept" and out.kind != "return" or want == "reject" and out.kind == "return":
                    if run.taint:
                        undec += 1
                        ctx.undecided(name, run.taint, part)
                        continue
                    ctx.violation(f"{V.name} remembers", RULE21, f"{name}: the changed document is {'accepted' if out.kind == 'return' else 'rejected: ' + out.text()}, on its own it is {want}ed",
                                  run, out, part=part, where=out.site or V.qual)
                    return
            if undec == 0:
                part.inc("decided")
        return fn
    for V, places in ((U, None), (Tg, C19_PLACES), (Ed, C20_PLACES)):
        for s in (rp if places is None else [x for x in slots if x.text[5:] in places]):
            wr = wire_for(env, env.expected(s))
            if wr is None or s.text.startswith(f"spec.components.{env.sections[wr[0]][0]}{{}}"):
                continue
            for same in (True, False):
                tasks.append(edited(V, s, wr, "good", "removed", "reject", "a document whose target is then removed", same))
                tasks.append(edited(V, s, wr, "none", "added", "accept", "a document whose missing target is then added", same))
                tasks.append(edited(V, s, wr, "good", "text", "reject", "a document whose reference is then changed", same))
                if V is U:
                    tasks.append(edited(V, s, wr, "good", "dangling", "reject", "a document whose target is then replaced by a dangling reference", same))
                tasks.append(edited(V, s, wr, "good", "section", "reject", "a document whose section is then removed", same))
    for V, places in ((U, None), (Tg, C19_PLACES), (Ed, C20_PLACES)):
        for s in (rp if places is None else [x for x in slots if x.text[5:] in places]):
            wr = wire_for(env, env.expected(s))
            if wr is None or s.text.startswith(f"spec.components.{env.sections[wr[0]][0]}{{}}"):
                continue
            ww = "tags" if wr[0] != "tags" else "servers"
            wc = env.sections[ww][2][0]
            for same in (True, False):
                for alias in (False, True):
                    tasks.append(sequence(V, s, good(wr), gone(wr), "reject", "a good document, then one without the target", same, alias))
                    tasks.append(sequence(V, s, gone(wr), good(wr), "accept", "a document without the target, then a good one", same, alias))
                tasks.append(sequence(V, s, good(wr), good(wr), "accept", "the same good document twice", same, True))
                if V is U:
                    tasks.append(sequence(V, s, good(wr), other_kind(wr, ww, wc), "reject", "a good document, then one whose target is of another kind", same, False))
                    tasks.append(sequence(V, s, other_kind(wr, ww, wc), good(wr), "accept", "a document whose target is of another kind, then a good one", same, False))
                    tasks.append(sequence(V, s, cyc(wr), good(wr), "accept", "a document with a cycle, then a good one", same, False))
    ctx.pmap(lambda f, part: f(part), tasks)
    ctx.part.count["validators"] = len(vs)


# ---------------------------------------------------------------------- errors are value errors (C22)
RULE22 = "validators reject input only by raising a value error"
ODDREFS = ("", "#", "#/", "#//", "/", "#/components", "#/components/", "#/components/schemas", "#/components/schemas/", "#/components//x", "#/info/title/x",
       "#/info/tags/0", "#/channels", "#/channels/x/messages/y", "#/servers/x/variables/y", "#/operations/x/channel", "#/operations/x/messages/0",
       "#/asyncapi", "#/asyncapi/x", "#/id", "#/defaultContentType", "#/extra_validators", "#/extra_validators/0", "#/root", "#/components/schemas/root/x",
       "#/components/schemas/x/properties/y", "#/components/messages/x/payload/y", "#/components/tags/x/y", "#/components/externalDocs/x/url", "#/__class__", "#/model_fields", "http:/", "x:y", "#a", "#/components/tags", "#/components/externalDocs",
       "#/components/tags/a b", "#/{x}", "#/channels/{x}")


def c22(ctx):
    w = ctx.w
    env = Env(ctx)
    U = unified(w)
    Tg = need(w, "TagsRefValidator", "asyncapi3.validators")
    Ed = need(w, "ExternalDocsRefValidator", "asyncapi3.validators")
    slots = slots_of(env)
    rp = reps(slots)
    tasks = []

    def add(V, nm, base, bud, sib, build=None, slot=None, variants=True):
        def scenario():
            doc = Doc(env.g, base=base, siblings=sib, variants=variants)
            if build:
                build(env, doc, slot)
            return (lambda: env.call(V, doc)), Verdict(None)
        tasks.append(lambda part: obligation(ctx, env, part, "C22", f"{V.name}: {nm}", scenario, RULE22, bud, max_paths=8000, only_value_error=True))
    for V in shipped(w):
        for base in ("min", "max"):
            add(V, f"a {base}imal document", base, 3 if ctx.thorough else 2 if base == "min" else 1, True)
    for V, places in ((U, None), (Tg, C19_PLACES), (Ed, C20_PLACES)):
        for s in (rp if places is None else [x for x in slots if x.text[5:] in places]):
            wr = wire_for(env, env.expected(s)) or ("schemas", env.byname["Schema"])
            add(V, f"any reference string at {s.text}", "min", 1, False, lambda e, d, sl: e.put(d, sl, R().sym("ref", [core.AStr(unsupported_lang() | http_lang())])), s, False)
            add(V, f"a chain to a missing entry at {s.text}", "min", 0, False, lambda e, d, sl, wr=wr: sc_chain_missing(e, d, sl, wr[0]), s, False)
            add(V, f"a cycle at {s.text}", "min", 0, False, lambda e, d, sl, wr=wr: sc_cycle(e, d, sl, wr[0]), s, False)
            add(V, f"a dangling reference at {s.text}", "max", 1 if ctx.thorough else 0, True, lambda e, d, sl, wr=wr: sc_missing_key(e, d, sl, wr[0]), s)
            for t in ODDREFS:
                add(V, f"the reference {t!r} at {s.text}", "min", 0, False, lambda e, d, sl, t=t: e.put(d, sl, t), s, False)
    first = [next(s for s in rp if s.key == k) for k in ("Info.tags[]", "Info.external_docs")]
    for V, s in ((U, first[0]), (Tg, first[0]), (Ed, first[1])):
        for t in ODDREFS:
            add(V, f"the reference {t!r} at {s.text} of a full document", "max", 1, True, lambda e, d, sl, t=t: e.put(d, sl, t), s)
    extra = []
    try:
        import raw
        extra = raw.c22_tasks(ctx, env)
    except ImportError:
        pass
    ctx.pmap(lambda f, part: f(part), tasks + extra)


CHECKS = {"C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22}
