"""C38: no text makes a pattern check take exponential time."""
from __future__ import annotations

import core
import lang
import redos
import rules
import refs
from check import Part, need, Undecided
from core import R, IDict, IList, AStr, mk
from lang import ALL, Unsupported
from models import Spec, Ob, absval, generic, shapes, outcome, data_with

RULE = "every pattern the library tries on a text backtracks polynomially"
SHORT = 30   # texts bounded below this length cannot hang a matcher


def texts(sp):
    """A text wherever a value may hold one."""
    t = lambda: R().sym("text", [AStr(ALL)])
    return [
        ("a text", t),
        ("a list of texts", lambda: IList([t()])),
        ("a map to a text", lambda: IDict([("a", t())])),
        ("a map from a text", lambda: IDict([(t(), "a")])),
        ("a map from a text to null", lambda: IDict([(t(), None)])),
        ("a list of maps to a text", lambda: IList([IDict([("a", t())])])),
        ("a map of maps from a text", lambda: IDict([("a", IDict([(t(), "b")]))])),
        ("a $ref map", lambda: IDict([("$ref", t())])),
    ]


def c38(ctx):
    sp = ctx.sp = Spec(ctx)
    w = ctx.w
    env = refs.Env(ctx)
    tasks = []

    def watch(part, what, go):
        """Run an analysis and decide every pattern it met."""
        w.matched = []
        hidden = Part()
        try:
            go(hidden)
        finally:
            met, w.matched = w.matched, None
        part.inc("paths", hidden.count.get("paths", 0))
        part.functions |= hidden.functions
        part.inc("obligations")
        part.inc("pattern_uses", len(met))
        und = [x for x in hidden.undecided][:1]
        for p, fl, mode, lang_, site in dict.fromkeys(met):
            if lang_ is None:
                continue
            d, hi = lang_
            if hi is not None and hi < SHORT:
                continue
            try:
                c = redos.pump(p, fl, mode, ALL) and redos.pump(p, fl, mode, d)
            except (Unsupported, RecursionError) as e:
                und.append(f"{p!r}: {e}")
                continue
            if c is not None:
                ctx.violation(f"{p!r} at {site}", RULE, f"{what}: re.{mode} with {p!r} takes exponential time on texts that repeat {c!r}", where=site, part=part)
        if und:
            part.undecided.append(f"{what}: {und[0]}")
        else:
            part.inc("decided")

    def model(name):
        def go(part):
            cls = sp.cls(name)
            d = sp.t[name]
            root = d["extra"] == "patterned"

            def run(key, fn):
                watch(part, key, lambda hidden: Ob(ctx, hidden, "C38", RULE).run(key, fn, lambda run, out: None, max_steps=2_000_000))
            vals = texts(sp)
            for l, p in vals:
                run(f"{name} from {l}", lambda p=p: outcome(w, lambda: sp.validate(cls, p())))
            if root:
                good = sp.sample(d["fields"]["root"]["type"][2])
                run(f"{name} with any key", lambda: outcome(w, lambda: sp.validate(cls, IDict([(R().sym("key", [AStr(ALL)]), absval(good))]))))

                def items():
                    o = sp.validate(cls, absval(sp.min(name)))
                    return outcome(w, lambda: w.setitem(o, R().sym("key", [AStr(ALL)]), absval(good)))
                run(f"{name}[any key]", items)
                return
            for n, f in d["fields"].items():
                seen = set()
                for l, p in vals + shapes(sp, sp.term(f["type"])):
                    if l in seen:
                        continue
                    seen.add(l)
                    run(f"{name}.{n} given {l}", lambda p=p, n=n: outcome(w, lambda: sp.validate(cls, data_with(sp, name, n, p()))))

                    def asg(p=p, n=n, f=f):
                        d0 = absval(sp.base(name, n))
                        d0.set(f["wire"], absval(sp.sample(f["type"], name, n)))
                        a = outcome(w, lambda: sp.validate(cls, d0))
                        return a if a[0] != "ok" else outcome(w, lambda: w.setattr(a[1], n, p()))
                    run(f"{name}.{n} = {l}", asg)
            for l, v in vals[:3] + [("1", lambda: 1)]:
                def ext(v=v):
                    e = absval(sp.min(name))
                    e.pairs.append([R().sym("name", [AStr(ALL)]), v()])
                    return outcome(w, lambda: sp.validate(cls, e))
                run(f"{name} with any unknown field holding {l}", ext)

                def xt(v=v):
                    e = absval(sp.min(name))
                    e.set("x-a", v())
                    return outcome(w, lambda: sp.validate(cls, e))
                run(f"{name} with an extension holding {l}", xt)
        return go
    for name in sp.t:
        tasks.append(model(name))
    s = rules.scheme()
    for i in range(len(rules.TYPES)):
        tasks.append(lambda part, i=i: watch(part, f"SecurityScheme {rules.TYPES[i]}", lambda h: rules.check_rule(ctx, h, "C38", RULE, s, i, 0, 0, crash=True)))
    for r in [rules.flows(), rules.channel(), rules.example(), rules.corr(), rules.contact()] + rules.c12_rules():
        tasks.append(lambda part, r=r: watch(part, f"the rules of {r.cls}", lambda h: rules.check_rule(ctx, h, "C38", RULE, r, None, 0, 0, crash=True)))
    # reference validators: any reference text, any entry names
    slots = refs.slots_of(env)
    rp = refs.reps(slots)
    vs = refs.shipped(w)

    def doc(V, slot, what, build, base="min"):
        def go(part):
            def scenario():
                d = refs.Doc(env.g, base=base, siblings=False, variants=False)
                build(env, d, slot)
                return (lambda: env.call(V, d)), refs.Verdict(None)
            key = f"{V.name}: {what} at {slot.text}"
            watch(part, key, lambda h: refs.obligation(ctx, env, h, "C38", key, scenario, RULE, 0, max_paths=4000, only_value_error=True))
        return go
    first = [next(x for x in rp if x.key == k) for k in ("Info.tags[]", "Info.external_docs", "Channel.servers[]")]
    for V in vs:
        for sl in rp:
            wr = refs.wire_for(env, env.expected(sl)) or ("schemas", env.byname["Schema"])
            tasks.append(doc(V, sl, "any reference text", lambda e, d, sl: e.put(d, sl, R().sym("ref", [AStr(refs.unsupported_lang() | refs.http_lang())]))))
            tasks.append(doc(V, sl, "a dangling reference", lambda e, d, sl, wr=wr: refs.sc_missing_key(e, d, sl, wr[0])))
            tasks.append(doc(V, sl, "a chain to a missing entry", lambda e, d, sl, wr=wr: refs.sc_chain_missing(e, d, sl, wr[0])))
            if sl in first:
                for f in ("#", "#/", "#/components/", "#/components/" + wr[0] + "/"):
                    tasks.append(doc(V, sl, f"any reference text after {f}", lambda e, d, sl, f=f: e.put(d, sl, R().sym("ref", [AStr(lang.concat(lang.lit(f), ~lang.contains("/")))]))))
    ctx.pmap(lambda f, part: f(part), tasks)
    ctx.part.count["patterns_sites"] = ctx.part.count.get("pattern_uses", 0)


CHECKS = {"C38": c38}
