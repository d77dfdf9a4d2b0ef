"""Checks of the rules of single objects: C10-C15, C23, C24.

Each rule is written down here once, as a predicate over the given values; it is evaluated
on the same abstract values, on the same path, as the validators of the class.
"""
from __future__ import annotations

import ast

import core
from core import R, IDict, IList, ISet, Sym, AStr, AInt, ABool, AVal, NONE, MISSING, PyRaise, Undecided, AnchorLost, conc, eq, mk, show, truth, compare, ask_lang, ask_len
from lang import ALL, lit, regex, words
from objs import ClassV, Inst
from std import UrlV
from check import need, is_value_error
from interp import py
from pyd import w_unbound
from models import state, same_state, Spec, Ob, absval, outcome, fieldval, rest, same, dumps, URL

ABSENT = object()


def given(x):
    return x is not ABSENT and conc(x) is not None


def isval(x, *vs):
    """x is one of the strings (decided on this path)."""
    if not given(x):
        return False
    return any(truth(eq(x, v)) for v in vs)


def alt(label, fn, cost=0):
    return (label, fn, cost)


def absent(cost=0):
    return ("absent", lambda: ABSENT, cost)


def null(cost=1):
    return ("null", lambda: None, cost)


def choose(what, alts, single=False):
    """Pick one alternative of a field (by cost) and build its value."""
    i = R().choose([f"{what}: {a[0]}" for a in alts], None if single else tuple(a[2] for a in alts))
    return alts[i][1](), alts[i][0]


def text(name, d=ALL, lo=0, hi=None):
    return lambda: R().sym(name, [AStr(d, lo, hi)])


def rich(sp, cname, at="", skip=(), depth=0):
    """Data of an object with every field given, its scalars symbolic."""
    d = IDict()
    for n, f in sp.t[cname]["fields"].items():
        if f["wire"] not in skip:
            d.set(f["wire"], rich_value(sp, f["type"], f"{at}.{n}", (cname, n), depth))
    return d


def rich_value(sp, j, at, owner, depth):
    import models
    if owner in models.SAMPLE:
        return absval(models.SAMPLE[owner])
    k = j[0]
    if k == "union":
        return rich_value(sp, next(x for x in j[1] if x[0] != "none"), at, owner, depth)
    if k == "str":
        return R().sym(at, [AStr()])
    if k == "int":
        return R().sym(at, [AInt()])
    if k == "bool":
        return R().sym(at, [ABool(True), ABool(False)])
    if k == "lit":
        return j[1][R().choose([f"{at} {x!r}" for x in j[1]], (0,) + (1,) * (len(j[1]) - 1))]
    if k == "model" and depth < 2 and sp.t[j[1]]["extra"] != "patterned" and not sp.rules(j[1]):
        return rich(sp, j[1], at, (), depth + 1)
    if k == "list":
        n = R().choose([f"{at} one", f"{at} empty", f"{at} two"], (0, 1, 1))
        return IList([rich_value(sp, j[1], f"{at}[{i}]", owner, depth) for i in range((1, 0, 2)[n])])
    return absval(sp.sample(j))


def nested(cname, at):
    """An alternative: every field of the nested object given (paths on which it is not valid by itself are left out)."""
    def fn():
        sp = R().info["sp"]
        v = rich(sp, cname, at)
        if outcome(sp.w, lambda: sp.validate(sp.cls(cname), v))[0] != "ok":
            raise core.Cut()
        return v
    return alt("with all fields", fn, 1)


class Rule:
    """The accepted combinations of the fields of one class."""

    def __init__(self, cls, fields, ok, always=None):
        # fields: [(wire, python name, [alternatives])]; ok(values by wire) -> True/False/None (no demand)
        self.cls, self.fields, self.ok, self.always = cls, fields, ok, always or (lambda: {})


def describe(vals):
    return ", ".join(f"{k}={show(v)}" for k, v in vals.items() if v is not ABSENT) or "nothing given"


def check_rule(ctx, part, prop, sentence, rule, first=None, budget=1, assign_budget=1, max_paths=60000, crash=False, diff=False, rollback=False):
    """first: fixed alternative of the first field (to split the work)."""
    sp = ctx.sp
    w = ctx.w
    ob = Ob(ctx, part, prop, sentence)
    cls = sp.cls(rule.cls)
    fields = rule.fields

    others = [n for n, f in sp.t[rule.cls]["fields"].items() if n not in {p for _, p, _ in fields} and f["wire"] not in (rule.always() or {})]

    def pick_all():
        vals = {}
        R().info["sp"] = sp
        R().info["others"] = None
        for i, (wire, py, alts) in enumerate(fields):
            if i == 0 and first is not None:
                vals[wire] = alts[first][1]()
            else:
                vals[wire] = choose(wire, alts)[0]
        if others and not diff and R().choose(["the other fields absent", "the other fields given"], (0, 1)):
            v = rich(sp, rule.cls, "other", [w_ for w_, _, _ in fields] + list(rule.always()), 2)
            R().info["others"] = v
        return vals

    def data(vals, names=False):
        d = absval(rule.always())
        if R().info["others"] is not None:
            for k, v in R().info["others"].live():
                d.set(k, v)
        for wire, py, alts in fields:
            if vals[wire] is not ABSENT:
                d.set(py if names else wire, vals[wire])
        return d

    def nullable(py):
        t = sp.t[rule.cls]["fields"][py]["type"]
        return t == ["any"] or t[0] == "union" and ["none"] in t[1]
    fl = f" {fields[0][0]}={fields[0][2][first][0]}" if first is not None else ""
    names = {wire: py for wire, py, _ in fields}

    def verdict(vals, a, how):
        if crash:
            return f"{how} {describe(vals)}: {core.exc_name(a[1].exc)} escapes at {a[1].site}" if a[0] == "crash" else None
        want = rule.ok(vals)
        if a[0] == "crash":
            return None  # C22
        if want is None:
            return None
        if want and a[0] == "bad":
            return f"{how} {describe(vals)} is rejected although it satisfies the rule"
        if not want and a[0] == "ok":
            return f"{how} {describe(vals)} is accepted although it violates the rule"
        return None

    st = {}

    def build():
        vals = pick_all()
        st["v"] = vals
        return vals, outcome(w, lambda: sp.validate(cls, data(vals)))

    def judge(run, out):
        if out.kind == "raise":
            return f"{describe(st['v'])}: {out.text()}"
        return verdict(out.value[0], out.value[1], "")
    if not diff and not rollback:
        ob.run(f"{rule.cls}{fl} combinations", build, judge, budget=budget, max_paths=max_paths, max_steps=30_000_000, where=cls.qual)

    def byname():
        vals = pick_all()
        st["v"] = vals
        kw = {k: absval(v) for k, v in rule.always().items()}
        if R().info["others"] is not None:
            kw.update({n: R().info["others"].get(sp.t[rule.cls]["fields"][n]["wire"]) for n in others})
        kw.update({names[k]: v for k, v in vals.items() if v is not ABSENT})
        return vals, outcome(w, lambda: w.instantiate(cls, [], kw))
    if not diff and not rollback:
        ob.run(f"{rule.cls}{fl} keyword combinations", byname, judge, budget=0, max_paths=max_paths, max_steps=30_000_000, where=cls.qual)

    # from every accepted object, one field is assigned; and then a second one
    def assign():
        vals = pick_all()
        st["v"] = vals
        a = outcome(w, lambda: sp.validate(cls, data(vals)))
        if a[0] != "ok":
            return None
        i = R().choose([f"then assign {f[0]}" for f in fields])
        wire, py, alts = fields[i]
        v, l = choose(f"{wire} (assigned)", [x for x in alts if x[0] != "absent"] + ([] if any(x[0] == "null" for x in alts) or not nullable(py) else [null(0)]), True)
        new = dict(vals)
        new[wire] = v
        st["v"] = new
        if rollback:
            before = state(a[1])
            c = outcome(w, lambda: w.setattr(a[1], py, v))
            return wire, vals, v, c, before, state(a[1])
        if diff:
            b = outcome(w, lambda: sp.validate(cls, data(new)))
            c = outcome(w, lambda: w.setattr(a[1], py, v))
            return new, c, b, (fieldval(sp, a[1], py), fieldval(sp, b[1], py)) if b[0] == c[0] == "ok" else None
        return new, outcome(w, lambda: w.setattr(a[1], py, v)), a[1], py, v

    def judge2(run, out):
        if out.kind == "raise":
            return f"{describe(st['v'])}: {out.text()}"
        if out.value is None:
            return None
        if rollback:
            wire, vals, v, c, before, after = out.value
            if c[0] == "ok":
                return None
            x = same_state(before, after)
            return f"{describe(vals)}: the rejected assignment of {show(v)} to {wire} changes {x}" if x else None
        if diff:
            new, c, b, two = out.value
            if "crash" in (b[0], c[0]):
                return None
            if b[0] != c[0]:
                return f"{describe(new)} is {'accepted' if b[0] == 'ok' else 'rejected'} by the constructor and {'accepted' if c[0] == 'ok' else 'rejected'} when the last value is assigned"
            return None if two is None or same(*two) else f"{describe(new)}: assigning stores {show(two[0])} instead of {show(two[1])}"
        return verdict(out.value[0], out.value[1], "by assignment,")
    ob.run(f"{rule.cls}{fl} assignments", assign, judge2, budget=assign_budget, max_paths=max_paths, max_steps=60_000_000, where=cls.qual)


# ---------------------------------------------------------------------- C10
TYPES = ["X509", "apiKey", "asymmetricEncryption", "gssapi", "http", "httpApiKey", "oauth2", "openIdConnect", "plain",
         "scramSha256", "scramSha512", "symmetricEncryption", "userPassword"]
RULE10 = "a security scheme / OAuth flows object is accepted exactly when its rules hold"


def bearer_maybe():
    return regex(r"[Bb][Ee][Aa][Rr][Ee][Rr]") & ~lit("bearer")


def scheme_rule(v):
    t = v["type"]
    if t == "apiKey" and not isval(v["in"], "user", "password"):
        return False
    if t == "httpApiKey" and (not given(v["name"]) or not isval(v["in"], "query", "header", "cookie")):
        return False
    if t == "http" and not given(v["scheme"]):
        return False
    if t == "oauth2" and not given(v["flows"]):
        return False
    if t == "openIdConnect" and not given(v["openIdConnectUrl"]):
        return False
    if given(v["scopes"]) and t not in ("oauth2", "openIdConnect"):
        return False
    if given(v["bearerFormat"]):
        if t != "http" or not given(v["scheme"]):
            return False
        if isinstance(v["scheme"], Sym) and ask_lang(v["scheme"], bearer_maybe(), "a spelling of bearer"):
            return None
        return isval(v["scheme"], "bearer")
    return True


def scheme():
    return Rule("SecurityScheme", [
        ("type", "type_", [alt(t, lambda t=t: t) for t in TYPES]),
        ("in", "in_", [absent()] + [alt(x, lambda x=x: x) for x in ("user", "password", "query", "header", "cookie")] + [null()]),
        ("name", "name", [absent(), alt("any string", text("name")), null()]),
        ("scheme", "scheme", [absent(), alt("any string", text("scheme")), null()]),
        ("bearerFormat", "bearer_format", [absent(), alt("any string", text("format")), null()]),
        ("flows", "flows", [absent(), alt("no flow", lambda: IDict()), null(),
                            alt("a flow", lambda: absval({"implicit": {"availableScopes": {}, "authorizationUrl": URL}}), 1)]),
        ("openIdConnectUrl", "open_id_connect_url", [absent(), alt("a URL", lambda: URL), null()]),
        ("scopes", "scopes", [absent(), alt("no scopes", lambda: IList([])), alt("a scope", lambda: IList([R().sym("scope", [AStr()])]), 1), null()]),
        ("description", "description", [absent(), alt("any string", text("description"), 1)]),
    ], scheme_rule)


FLOWS = {"implicit": (True, False), "password": (False, True), "clientCredentials": (False, True), "authorizationCode": (True, True)}
FLOWPY = {"clientCredentials": "client_credentials", "authorizationCode": "authorization_code"}


def flow(auth, token):
    def f():
        d = absval({"availableScopes": {}})
        if auth:
            d.set("authorizationUrl", URL if auth == 1 else None)
        if token:
            d.set("tokenUrl", URL if token == 1 else None)
        return d
    return f


def flows_rule(v):
    for k, (na, nt) in FLOWS.items():
        x = v[k]
        if not given(x):
            continue
        if na and not given(x.get("authorizationUrl", ABSENT)) or nt and not given(x.get("tokenUrl", ABSENT)):
            return False
    return True


def flows():
    alts = [absent()] + [alt(f"authorizationUrl {['absent', 'given', 'null'][a]}, tokenUrl {['absent', 'given', 'null'][b]}", flow(a, b), 1 if 2 in (a, b) else 0)
                         for a in (0, 1, 2) for b in (0, 1, 2)] + [null()]
    return Rule("OAuthFlows", [(k, FLOWPY.get(k, k), alts) for k in FLOWS], flows_rule)


def c10(ctx):
    ctx.sp = Spec(ctx)
    s, f = scheme(), flows()
    n = 2 if ctx.thorough else 1
    tasks = [(s, i) for i in range(len(TYPES))] + [(f, i) for i in range(len(f.fields[0][2]))]
    # a flow that loses a URL after it became part of the flows object
    ctx.pmap(lambda it, part: check_rule(ctx, part, "C10", RULE10, it[0], it[1], n, 1 if ctx.thorough else 0), tasks)


# ---------------------------------------------------------------------- C11
RULE11 = "the object is accepted exactly when its rule holds"


def channel_rule(v):
    if not given(v["parameters"]):
        return True
    if not given(v["address"]):
        return False
    return truth(ask_lang(v["address"], regex(r"\{[^}]+\}", 0, "search"), "contains an expression"))


def channel():
    p = lambda: absval({"p": {"description": "d"}})
    return Rule("Channel", [
        ("address", "address", [absent(), alt("any string", text("address")), null(0)]),
        ("parameters", "parameters", [absent(), alt("a parameter", p), alt("no parameter", lambda: IDict()), null(0),
                                      alt("a parameter reference", lambda: absval({"p": {"$ref": "#/components/parameters/p"}})),
                                      alt("two parameters", lambda: absval({"p": {}, "q": {"$ref": "#/components/parameters/p"}}))]),
        ("title", "title", [absent(), alt("any string", text("title"), 1)]),
        ("servers", "servers", [absent(), alt("none", lambda: IList([]), 1)]),
    ], channel_rule)


def example_rule(v):
    if given(v["headers"]) or given(v["payload"]):
        return True
    return False if v["payload"] is ABSENT and v["headers"] is ABSENT or v["payload"] is ABSENT else None


def example():
    return Rule("MessageExample", [
        ("headers", "headers", [absent(), alt("no header", lambda: IDict()), alt("a header", lambda: absval({"h": 1})), null(0)]),
        ("payload", "payload", [absent(), null(0)] + [alt(l, p) for l, p in (
            ("a string", text("payload")), ("an integer", lambda: R().sym("payload", [AInt()])), ("a boolean", lambda: R().sym("payload", [ABool(True), ABool(False)])),
            ("0.0", lambda: 0.0), ("an empty list", lambda: IList([])), ("an empty map", lambda: IDict()), ("a map", lambda: absval({"a": None})), ("a list", lambda: IList([None])))]),
        ("name", "name", [absent(), alt("any string", text("name"))]),
        ("summary", "summary", [absent(), alt("any string", text("summary"))]),
    ], example_rule)


def corr():
    return Rule("CorrelationID", [("location", "location", [alt("any string", text("location"))]),
                                  ("description", "description", [absent(), alt("any string", text("description")), null(0)])],
                lambda v: truth(ask_lang(v["location"], regex(r"\$message\.", 0, "match"), "starts with $message.")))


EMAIL = r"(?!.*\.\.)[a-zA-Z0-9._%+-]+@[a-zA-Z0-9.-]+\.[a-zA-Z]{2,}"


def contact():
    return Rule("Contact", [("email", "email", [alt("any string", text("email")), absent(), null(0)]),
                            ("name", "name", [absent(), alt("any string", text("name"))]),
                            ("url", "url", [absent(), alt("a URL", lambda: URL)])],
                lambda v: True if not given(v["email"]) else truth(ask_lang(v["email"], regex(EMAIL), "is an e-mail address")))


def c11(ctx):
    ctx.sp = Spec(ctx)
    w = ctx.w
    rules = [channel(), example(), corr(), contact()]
    tasks = [(r, i) for r in rules for i in range(len(r.fields[0][2]))]

    def keeps(ctx, part):
        """The accepted strings are kept as they are."""
        ob = Ob(ctx, part, "C11", "an accepted value is kept as it is")
        for cls, wire, py, d in (("CorrelationID", "location", "location", regex(r"\$message\.", 0, "match")), ("Contact", "email", "email", regex(EMAIL))):
            st = {}

            def fn():
                st["v"] = R().sym("value", [AStr(d)])
                o = ctx.sp.validate(ctx.sp.cls(cls), IDict([(wire, st["v"])]))
                return w.getattr(o, py), w.call(w.getattr(o, "model_dump"), [], {})

            def judge(run, out):
                if out.kind == "raise":
                    return out.text()
                if not truth(eq(out.value[0], st["v"])):
                    return f"the value {show(st['v'])} is read as {show(out.value[0])}"
                got = out.value[1].get(wire, ABSENT)
                if got is ABSENT or not truth(eq(got, st["v"])):
                    return f"the value {show(st['v'])} is written as {show(got)}"
                return None
            ob.run(f"{cls}.{py} is kept", fn, judge, where=ctx.sp.cls(cls).qual)
    ctx.pmap(lambda it, part: keeps(ctx, part) if it is None else check_rule(ctx, part, "C11", RULE11, it[0], it[1], 2, 2), tasks + [None])


# ---------------------------------------------------------------------- C12
RULE12 = "a binding object is accepted exactly when its documented value constraints hold"


def obj(label, **kw):
    return alt(label, lambda: absval(kw))


def excl(v, by, a, b):
    """by says which of a and b must be given; the other must not."""
    if isval(v[by], a[0]):
        return given(v[a[1]]) and not given(v[b[1]])
    return given(v[b[1]]) and not given(v[a[1]])


def ibm_channel(v):
    if given(v["queue"]) and given(v["topic"]):
        return False
    t = v["destinationType"]
    if given(t) and isval(t, "queue") and not given(v["queue"]):
        return False
    return True


def ibm_message(v):
    t = v["type"]
    if given(v["headers"]) and (t is ABSENT or isval(t, "string", "jms")):
        return False
    return True


def c12_rules():
    ex = {"name": "e", "type": "topic"}
    return [
        Rule("AMQPChannelBindings", [
            ("is", "is_", [alt("queue", lambda: "queue"), alt("routingKey", lambda: "routingKey")]),
            ("exchange", "exchange", [absent(), alt("given", lambda: absval(ex)), alt("without a name", lambda: absval({**ex, "name": ""})), null(0), nested("AMQPExchange", "exchange")]),
            ("queue", "queue", [absent(), alt("empty", lambda: IDict()), alt("given", lambda: absval({"name": "q"})), null(0), nested("AMQPQueue", "queue")]),
            ("bindingVersion", "binding_version", [absent(), alt("any string", text("version"))]),
        ], lambda v: excl(v, "is", ("queue", "queue"), ("routingKey", "exchange"))),
        Rule("SolaceDestination", [
            ("destinationType", "destination_type", [alt("queue", lambda: "queue"), alt("topic", lambda: "topic")]),
            ("queue", "queue", [absent(), alt("empty", lambda: IDict()), alt("given", lambda: absval({"name": "q"})), null(0), nested("SolaceQueue", "queue")]),
            ("topic", "topic", [absent(), alt("empty", lambda: IDict()), alt("given", lambda: absval({"topicSubscriptions": ["t"]})), null(0), nested("SolaceTopic", "topic")]),
            ("deliveryMode", "delivery_mode", [absent(), alt("direct", lambda: "direct"), alt("persistent", lambda: "persistent")]),
        ], lambda v: excl(v, "destinationType", ("queue", "queue"), ("topic", "topic"))),
        Rule("IBMMQChannelBindings", [
            ("destinationType", "destination_type", [absent(), alt("queue", lambda: "queue"), alt("topic", lambda: "topic")]),
            ("queue", "queue", [absent(), alt("given", lambda: absval({"objectName": "q"})), alt("without a name", lambda: absval({"objectName": ""})), null(0), nested("IBMMQQueue", "queue")]),
            ("topic", "topic", [absent(), alt("empty", lambda: IDict()), alt("given", lambda: absval({"string": "t"})), null(0), nested("IBMMQTopic", "topic")]),
            ("maxMsgLength", "max_msg_length", [absent(), alt("zero", lambda: 0), null(0)]),
        ], ibm_channel),
        Rule("IBMMQMessageBindings", [
            ("type", "type", [absent(), alt("string", lambda: "string"), alt("jms", lambda: "jms"), alt("binary", lambda: "binary")]),
            ("headers", "headers", [absent(), alt("any string", text("headers")), null(0)]),
            ("expiry", "expiry", [absent(), alt("zero", lambda: 0), null(0)]),
            ("description", "description", [absent(), alt("any string", text("description"))]),
        ], ibm_message),
        Rule("KafkaServerBindings", [
            ("schemaRegistryUrl", "schema_registry_url", [absent(), alt("any string", text("url")), null(0)]),
            ("schemaRegistryVendor", "schema_registry_vendor", [absent(), alt("any string", text("vendor")), null(0)]),
            ("bindingVersion", "binding_version", [absent(), alt("any string", text("version"))]),
        ], lambda v: not (given(v["schemaRegistryVendor"]) and not given(v["schemaRegistryUrl"]))),
    ]


# class, wire name, python name, lowest, highest, other data
INTS = [
    ("AMQPOperationBindings", "expiration", "expiration", 0, None, {}),
    ("IBMMQServerBindings", "heartBeatInterval", "heart_beat_interval", 0, 999999, {}),
    ("IBMMQChannelBindings", "maxMsgLength", "max_msg_length", 0, 104857600, {}),
    ("IBMMQMessageBindings", "expiry", "expiry", 0, None, {}),
    ("KafkaChannelBindings", "partitions", "partitions", 1, None, {}),
    ("KafkaChannelBindings", "replicas", "replicas", 1, None, {}),
    ("SolaceOperationBindings", "priority", "priority", 0, 255, {}),
]
LENS = [
    ("AMQPExchange", "name", "name", 255, {"type": "topic"}),
    ("AMQPQueue", "name", "name", 255, {}),
    ("IBMMQQueue", "objectName", "object_name", 48, {}),
    ("IBMMQTopic", "string", "string", 10240, {}),
    ("IBMMQTopic", "objectName", "object_name", 48, {}),
    ("NATSOperationBindings", "queue", "queue", 255, {}),
    ("SolaceServerBindings", "clientName", "client_name", 160, {}),
]


def c12_values(ctx, part):
    sp, w = ctx.sp, ctx.w
    ob = Ob(ctx, part, "C12", RULE12)

    def both(key, cname, wire, py, other, mk_v, ok):
        cls = sp.cls(cname)
        f = sp.t[cname]["fields"][py]
        for how in ("given", "assigned", "assigned to the default object", "keyword"):
            st = {}

            def fn():
                v = st["v"] = mk_v()
                t = sp.term(f["type"])
                s = outcome(w, lambda: w.pyd.validate(t, v))
                if how == "given":
                    d = absval(other)
                    d.set(wire, v)
                    return s, outcome(w, lambda: sp.validate(cls, d))
                if how == "keyword":
                    return s, outcome(w, lambda: w.instantiate(cls, [], {**{k: absval(x) for k, x in other.items()}, py: v}))
                base = absval(other)
                if how == "assigned" or f.get("required"):
                    base.set(wire, "x" if "str" in str(f["type"]) else 10)
                o = sp.validate(cls, base)
                return s, outcome(w, lambda: w.setattr(o, py, v))

            def judge(run, out):
                if out.kind == "raise":
                    return out.text()
                s, a = out.value
                if a[0] == "crash" or s[0] == "crash":
                    return None
                want = s[0] == "ok" and ok(s[1])
                if want and a[0] == "bad":
                    return f"{wire} {show(st['v'])} ({how}) is rejected although it is allowed"
                if not want and a[0] == "ok":
                    return f"{wire} {show(st['v'])} ({how}) is accepted although it is not allowed"
                return None
            ob.run(f"{key} {how}", fn, judge, where=f"{cls.qual}.{py}")

    for cname, wire, py, lo, hi, other in INTS:
        def inside(x, lo=lo, hi=hi):
            x = conc(x)
            if x is None or isinstance(x, Inst):
                return True
            return (lo is None or compare(">=", x, lo)) and (hi is None or compare("<=", x, hi))
        both(f"{cname}.{py} any integer", cname, wire, py, other, lambda: R().sym("value", [AInt()]), inside)
        edge = [lo - 1, lo, lo + 1, -5] + ([hi - 1, hi, hi + 1, 2 * hi] if hi is not None else [2 ** 31, 2 ** 63, 2 ** 70])
        for n in edge:
            for v in (n, str(n), float(n), f" {n} ", f"{n}.0"):
                both(f"{cname}.{py} = {v!r}", cname, wire, py, other, lambda v=v: v, inside)
        for v in (True, False, None, 0.5, "", "x"):
            both(f"{cname}.{py} = {v!r}", cname, wire, py, other, lambda v=v: v, inside)
        if cname == "SolaceOperationBindings":
            for v in ({}, {"type": "integer"}, {"$ref": "#/a/b"}, {"maximum": 999}):
                both(f"{cname}.{py} = {v!r}", cname, wire, py, other, lambda v=v: absval(v), inside)
    for cname, wire, py, n, other in LENS:
        def short(x, n=n):
            x = conc(x)
            return x is None or truth(ask_len(x, "<=", n) if isinstance(x, Sym) else len(x) <= n)
        both(f"{cname}.{py} any string", cname, wire, py, other, text("value"), short)
        for v in ("", "a", "é" * n, "a" * n, "a" * (n + 1), "é" * (n + 1), " " * (n + 1), "a" * n + "\n", "\U0001f600" * n, None):
            both(f"{cname}.{py} = {'null' if v is None else v[:1] + ' x ' + str(len(v))}", cname, wire, py, other, lambda v=v: v, short)


def c12(ctx):
    ctx.sp = Spec(ctx)
    rules = c12_rules()
    tasks = [(r, i) for r in rules for i in range(len(r.fields[0][2]))]
    ctx.pmap(lambda it, part: c12_values(ctx, part) if it is None else check_rule(ctx, part, "C12", RULE12, it[0], it[1], 2, 2), [None] + tasks)


# ---------------------------------------------------------------------- C13
RULE13 = "asyncapi is accepted exactly when it is 3.<digits>.<digits>[-suffix]"


def c13(ctx):
    sp = ctx.sp = Spec(ctx)
    w = ctx.w
    YES = regex(r"3\.[0-9]+\.[0-9]+(-[A-Za-z0-9_.\-]+)?")
    MAYBE = regex(r"\d+\.\d+\.\d+(-[\w.\-]+)?") & (~regex(r"[\x00-\x7f]*") | regex(r"0+3\..*", 16)) & regex(r"0*(3|[^\x00-\x7f]).*", 16)
    cls = sp.cls("AsyncAPI3")
    ob = Ob(ctx, ctx.part, "C13", RULE13)
    info = {"title": "t", "version": "1"}
    for how in ("given", "assigned", "keyword", "given next to everything else", "assigned in a built document"):
        st = {}

        def fn():
            # the processing of a raw string that is passed on to code outside the model is not needed
            k = st["k"] = R().sym("version", [AStr(ALL)])
            if how == "given":
                return sp.validate(cls, IDict([("asyncapi", k), ("info", absval(info))]))
            if how == "given next to everything else":
                return sp.validate(cls, IDict([("info", absval(info)), ("channels", IDict()), ("asyncapi", k), ("x-a", 1), ("components", IDict()), ("defaultContentType", "t")]))
            if how == "keyword":
                return w.instantiate(cls, [], {"asyncapi": k, "info": absval(info)})
            o = sp.validate(cls, absval({"asyncapi": "3.0.0", "info": info})) if how == "assigned" else w.call(w.getattr(cls, "as_builder"), [], {})
            w.setattr(o, "asyncapi", k)
            return o

        def judge(run, out):
            dom = rest(run, st["k"])
            if out.kind == "return":
                bad = dom & ~YES & ~MAYBE
                if not bad.empty():
                    return f"the version {bad.example()!r} is accepted ({how})"
                if not truth(eq(w.getattr(out.value, "asyncapi"), st["k"])):
                    return f"the version is stored as {show(w.getattr(out.value, 'asyncapi'))}"
                return None
            if not is_value_error(w, out.exc):
                return f"{show(st['k'])}: {out.text()}"
            bad = dom & YES
            if not bad.empty():
                return f"the version {bad.example()!r} is rejected ({how})"
            return None
        ob.run(f"asyncapi {how}", fn, judge, where=cls.qual)
    for v in (None, 3, 3.0, True, IList([])):
        ob.run(f"asyncapi = {v!r}", lambda v=v: outcome(w, lambda: sp.validate(cls, IDict([("asyncapi", v), ("info", absval(info))]))),
               lambda run, out, v=v: out.text() if out.kind == "raise" else None if out.value[0] == "bad" else f"the version {v!r} is accepted", where=cls.qual)
    ob.run("asyncapi left out", lambda: w.getattr(sp.validate(cls, IDict([("info", absval(info))])), "asyncapi"),
           lambda run, out: out.text() if out.kind == "raise" else None if truth(ask_lang(out.value, YES, "is supported")) else f"the default version is {show(out.value)}", where=cls.qual)


# ---------------------------------------------------------------------- C14
RULE14 = "every converter and then every validator runs once, in order, on the document itself; an error rejects the document"
STANDIN = """
class P0:
    def __call__(self, spec):
        return spec
class P1:
    def __init__(self):
        self.n = 0
    def __call__(self, spec):
        return spec
class P2:
    def __call__(self, spec):
        return None
class P3(P0):
    def __call__(self, spec):
        return P0()
class P4:
    def __call__(self, spec):
        return spec
class Rejected(Exception):
    pass
class NotGood(ValueError):
    pass
class Missing(KeyError):
    pass
"""


class Log:
    """Calls of the stand-in processors from start() on; the at-th of them raises exc."""

    def __init__(self):
        self.calls, self.at, self.exc, self.on = [], None, None, False

    def reset(self, at=None, exc=None):
        self.calls, self.at, self.exc, self.on = [], at, exc, False

    def start(self):
        self.calls, self.on = [], True

    def hook(self, f, args, kw):
        self.calls.append((args[0].cls, args[1] if len(args) > 1 else kw.get("spec")))
        if self.on and self.at == len(self.calls) - 1:
            if isinstance(self.exc, ClassV):
                raise PyRaise(self.w.call(self.exc, ["rejected by a processor"], {}))
            py(self.exc, "rejected by a processor")
        return w_unbound()


def c14(ctx):
    sp = ctx.sp = Spec(ctx)
    w = ctx.w
    cls = sp.cls("AsyncAPI3")
    m = w.load_source("standin", STANDIN)
    P = [m.ns[f"P{i}"] for i in range(5)]
    log = Log()
    log.w = w
    for p in P:
        w.hooks[p.ns["__call__"].qual] = log.hook
    info = {"title": "t", "version": "1"}
    LISTS = [((), (3,)), ((0,), ()), ((0,), (1,)), ((0, 1, 2), (3, 4, 1)), ((2, 1, 0), (4, 3)), ((3, 2), (2, 3)), ((0, 0), (1, 1)), ((4,), (4,)),
             ((0, 1, 2, 3, 4), (4, 3, 2, 1, 0))]
    LISTS += [(tuple(i % 5 for i in range(n + 1)), tuple(i % 5 for i in range(n, -1, -1))) for n in w.sizes("asyncapi3.models.asyncapi", "asyncapi3.models.base_models", "asyncapi3.validators", lo=5)[:2]]
    fields = list(sp.t["AsyncAPI3"]["fields"].items())

    def ilist(ix):
        return IList([P[i] for i in ix])

    def data(cv, vl):
        d = absval({"asyncapi": "3.0.0", "info": info})
        if cv is not None:
            d.set("extra_converters", ilist(cv))
        if vl is not None:
            d.set("extra_validators", ilist(vl))
        return d

    def ops(cv, vl):
        """(label, operation -> document, converters and validators that must have run)"""
        def validated():
            log.start()
            return sp.validate(cls, data(cv, vl))

        def constructed():
            log.start()
            return w.instantiate(cls, [], dict(data(cv, vl).live()))

        def built():
            log.start()
            return w.call(w.getattr(cls, "as_builder"), [], {"extra_converters": ilist(cv), "extra_validators": ilist(vl)})

        def again():
            o = sp.validate(cls, data(cv, vl))
            log.start()
            return sp.validate(cls, o)
        out = [("validated", validated, cv, vl), ("constructed", constructed, cv, vl), ("built", built, cv, vl), ("validated again", again, cv, vl)]

        def assigning(n, mk_v, before=()):
            def go():
                o = sp.validate(cls, data(cv, vl))
                for b in before:
                    w.setattr(o, b, mk_v())
                v = mk_v()
                log.start()
                w.setattr(o, n, v)
                return o
            return go
        for n, f in fields:
            v = lambda n=n, f=f: absval(sp.sample(f["type"], "AsyncAPI3", n))
            out.append((f"assigned {n}", assigning(n, v), cv, vl))
            out.append((f"assigned {n} twice", assigning(n, v, (n,)), cv, vl))
        out.append(("assigned an extension", assigning("x-new", lambda: 1), cv, vl))
        for n, i in (("extra_converters", 0), ("extra_validators", 1)):
            for new in ((1, 0), None, ()):
                out.append((f"assigned {n} {new}", assigning(n, lambda new=new: None if new is None else ilist(new)), new or () if i == 0 else cv, new or () if i == 1 else vl))

        def without(c, v):
            def go():
                log.start()
                return sp.validate(cls, data(c, v))
            return go
        out.append(("without converters", without(None, vl), (), vl))
        out.append(("without validators", without(cv, None), cv, ()))
        return out

    def full(o):
        return all(o.d.find(n) is not None for n in [n for n, _ in fields] + ["extra_converters", "extra_validators"])

    def task(item, part):
        cv0, vl0, k, exc = item
        label, op, cv, vl = ops(cv0, vl0)[k]
        ob = Ob(ctx, part, "C14", RULE14)
        want = [P[i] for i in cv] + [P[i] for i in vl]
        key = f"{label}, converters {cv}, validators {vl}"

        def fn(at=None):
            log.reset(at, exc)
            return outcome(w, op)

        def judge(run, out):
            if out.kind == "raise":
                return out.text()
            kind, o = out.value
            if kind != "ok":
                return f"the document is rejected: {o}"
            got = [c for c, _ in log.calls]
            if got != want:
                return f"the processors {[c.name for c in got]} ran instead of {[c.name for c in want]}"
            for c, d in log.calls:
                if d is not o:
                    return f"{c.name} ran on {show(d)} instead of the document"
            if not full(o):
                return "a processor ran on an incomplete document"
            return None
        if exc is None:
            ob.run(key, fn, judge, where=cls.qual)
            return
        for at in range(len(want)):
            def judge2(run, out):
                if out.kind == "raise":
                    return out.text()
                kind, e = out.value
                if kind == "ok":
                    return f"an error raised by processor {at + 1} of {len(want)} does not reject the document"
                if kind == "crash" and isinstance(exc, type) and issubclass(exc, (ValueError, AssertionError)) and not issubclass(exc, UnicodeError):
                    return f"an error raised by processor {at + 1} of {len(want)} escapes as {core.exc_name(e.exc)}"
                got = [c for c, _ in log.calls]
                if got[:at + 1] != want[:at + 1]:
                    return f"before the error the processors {[c.name for c in got]} ran instead of {[c.name for c in want[:at + 1]]}"
                return None
            ob.run(f"{key}, {exc.name if isinstance(exc, ClassV) else exc.__name__} in processor {at + 1}", lambda: fn(at), judge2, where=cls.qual)

    tasks = []
    for cv, vl in LISTS:
        for k in range(len(ops(cv, vl))):
            tasks.append((cv, vl, k, None))
    for cv, vl in LISTS[3:5] + (LISTS[8:] if ctx.thorough else []):
        for k, (label, *_) in enumerate(ops(cv, vl)):
            for e in (ValueError, AssertionError, KeyError):
                tasks.append((cv, vl, k, e))

    # whatever a processor raises rejects the document
    OTHER = [Exception, TypeError, AttributeError, NotImplementedError, RuntimeError, LookupError, IndexError, NameError, OSError, ImportError, ArithmeticError,
             ZeroDivisionError, OverflowError, RecursionError, StopIteration, StopAsyncIteration, TimeoutError, ConnectionError, PermissionError, FileNotFoundError,
             BufferError, EOFError, MemoryError, SystemError, Warning, UserWarning, DeprecationWarning] + [m.ns[n] for n in ("Rejected", "NotGood", "Missing")]
    some = LISTS[3]
    for k, (label, *_) in enumerate(ops(*some)):
        if label in ("validated", "constructed", "built", "validated again", "assigned info", "assigned servers", "assigned an extension"):
            for e in OTHER:
                tasks.append((*some, k, e))

    def written(part):
        ob = Ob(ctx, part, "C14", "the processor lists are never serialised")
        modes = [{}, {"by_alias": False}, {"exclude_none": True}, {"exclude_unset": True}, {"exclude_defaults": True}, {"mode": "json"}]
        states = [(c, v) for c in (None, (), (0, 1)) for v in (None, (), (2, 3))]
        for meth, kw, (c, v), assigned in [(meth, kw, st, a) for meth in ("model_dump", "model_dump_json") for kw in (modes if meth == "model_dump" else modes[:5])
                                           for st in states for a in ("", "null", "empty", "given")]:
            if True:
                def fn():
                    if assigned == "":
                        o = sp.validate(cls, data(c, v))
                    else:
                        o = sp.validate(cls, data(c, v))
                        new = {"null": lambda i: None, "empty": lambda i: ilist(()), "given": lambda i: ilist((i,))}[assigned]
                        w.setattr(o, "extra_validators", new(4))
                        w.setattr(o, "extra_converters", new(0))
                    r = w.call(w.getattr(o, meth), [], dict(kw))
                    return getattr(r, "data", r)

                def judge(run, out):
                    if out.kind == "raise":
                        return out.text()
                    if not isinstance(out.value, IDict):
                        raise Undecided(f"{meth} returns {show(out.value)}")
                    known = ({f["wire"] for n, f in fields} | {n for n, f in fields}) - {"extra_converters", "extra_validators"}
                    bad = [show(x) for x in out.value.keys_() if x not in known]
                    return f"{meth}({kw}) writes {bad}" if bad else None
                ob.run(f"{meth} {kw} converters {c}, validators {v}{', assigned ' + assigned if assigned else ''}", fn, judge, where=cls.qual)
    ctx.pmap(lambda it, part: written(part) if it is None else task(it, part), [None] + tasks)


# ---------------------------------------------------------------------- C15
RULE15 = "the builder returns an empty, reference-validated document with exactly the given info; keyword arguments take precedence"
SECTIONS = ["schemas", "servers", "channels", "operations", "messages", "securitySchemes", "serverVariables", "parameters", "correlationIds", "replies",
            "replyAddresses", "externalDocs", "tags", "operationTraits", "messageTraits", "serverBindings", "channelBindings", "operationBindings", "messageBindings"]
INFOARGS = {"title": "title", "version": "version", "description": "description", "terms_of_service": "termsOfService", "contact": "contact",
            "license": "license", "tags": "tags", "external_docs": "externalDocs"}


def c15(ctx):
    sp = ctx.sp = Spec(ctx)
    w = ctx.w
    cls = sp.cls("AsyncAPI3")
    uni = need(w, "UnifiedReferencesValidator", "asyncapi3.validators")
    pyname = {f["wire"]: n for n, f in sp.t["Components"]["fields"].items()}

    def inst(cname, /, **kw):
        return sp.validate(sp.cls(cname), absval(kw))
    VALS = {
        "title": [text("title")], "version": [text("version")], "description": [text("description")],
        "terms_of_service": [lambda: URL],
        "contact": [lambda: inst("Contact", name="c", email="a@b.cc"), lambda: inst("Contact")],
        "license": [lambda: inst("License", name="l", **{"x-a": 1})],
        "tags": [lambda: IList([inst("Tag", name="a"), inst("Tag", name="b", description="d")]), lambda: IList([])],
        "external_docs": [lambda: inst("ExternalDocumentation", url=URL, description="d"), lambda: inst("Reference", **{"$ref": "https://example.com/r"})],
    }

    def build(**kw):
        return w.call(w.getattr(cls, "as_builder"), [], kw)

    def empty_map(x):
        r = conc(x.d.get("root")) if isinstance(x, Inst) else x
        return isinstance(r, IDict) and len(r) == 0

    def problems(o, given_, skip=()):
        """What differs from the promised document."""
        if not isinstance(o, Inst) or not o.cls.is_sub(cls):
            return f"{show(o)} is returned"
        d = w.call(w.getattr(o, "model_dump"), [], {})
        if "info" not in skip:
            inf = w.getattr(o, "info")
            for a, wire in INFOARGS.items():
                got = w.getattr(inf, a)
                if a in given_:
                    want = given_[a]
                    t = sp.term(sp.t["Info"]["fields"][a]["type"])
                    want = w.pyd.validate(t, want)
                    if not deep(got, want):
                        return f"info.{a} is {show(got)} instead of the given {show(want)}"
                    if d.get("info").get(wire, ABSENT) is ABSENT and given_[a] is not None:
                        return f"the given {a} is not written"
                elif a not in ("title", "version") and got is not None:
                    return f"info.{a} is {show(got)} although nothing was given"
            if conc(inf).extra is not None and len(conc(inf).extra):
                return "the info has extra fields"
        for n in ("servers", "channels", "operations"):
            if n not in skip:
                x = w.getattr(o, n)
                if not empty_map(x):
                    return f"{n} is {show(x)} instead of an empty map"
                if n not in d or not isinstance(d.get(n), IDict) or len(d.get(n)):
                    return f"{n} is written as {show(d.get(n, None))}"
        if "components" not in skip:
            c = w.getattr(o, "components")
            if not isinstance(c, Inst):
                return "there is no components object"
            for s in SECTIONS:
                x = w.getattr(c, pyname[s])
                if not empty_map(x):
                    return f"components.{s} is {show(x)} instead of an empty map"
                dc = d.get("components")
                if s not in dc or len(dc.get(s)):
                    return f"components.{s} is not written as an empty map"
        if "extra_validators" not in skip:
            ev = w.getattr(o, "extra_validators")
            if not isinstance(ev, list) or not any(x is uni for x in ev):
                return "reference validation is not enabled"
        return None

    def deep(a, b):
        a, b = conc(a), conc(b)
        if isinstance(a, Inst) and isinstance(b, Inst):
            if a.cls is not b.cls:
                return False
            return deep(a.d, b.d) and deep(a.extra or IDict(), b.extra or IDict())
        if isinstance(a, IDict) and isinstance(b, IDict):
            return len(a) == len(b) and all(k in b and deep(v, b.get(k)) for k, v in a.live())
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(deep(x, y) for x, y in zip(a, b))
        return same(a, b)

    def combos(lo, part):
        ob = Ob(ctx, part, "C15", RULE15)
        names = list(VALS)

        def fn():
            g = {}
            for i, a in enumerate(names):
                alts = ["not given"] + [f"value {j + 1}" for j in range(len(VALS[a]))] + (["null"] if a not in ("title", "version") else [])
                c = lo if i == 2 else R().choose([f"{a}: {x}" for x in alts], [0, 0] + [1] * (len(alts) - 2))
                if i == 2:
                    c = min(c, len(alts) - 1)
                if c == 0:
                    continue
                g[a] = None if alts[c] == "null" else VALS[a][c - 1]()
            return build(**g), g

        def judge(run, out):
            if out.kind == "raise":
                return out.text()
            return problems(*out.value)
        ob.run(f"as_builder, argument combinations {lo}", fn, judge, budget=1, max_paths=30000, max_steps=30_000_000, where=cls.qual)
    KW = {
        "info": lambda: inst("Info", title="other", version="9"),
        "servers": lambda: inst("Servers", s=sp.min("Server")), "channels": lambda: inst("Channels", c={}),
        "operations": lambda: inst("Operations"), "components": lambda: inst("Components", schemas={"s": {"type": "string"}}),
        "asyncapi": lambda: "3.1.0", "id": lambda: "urn:a", "default_content_type": lambda: "a/b", "defaultContentType": lambda: "a/b",
        "x-ext": lambda: 5, "extra_validators": lambda: IList([]), "extra_converters": lambda: IList([]),
    }
    NULLS = ["servers", "channels", "operations", "components", "extra_validators", "extra_converters", "id"]

    def kwargs(part):
        ob = Ob(ctx, part, "C15", RULE15)
        cases = [(k, p) for k, p in KW.items()] + [(k, lambda: None) for k in NULLS]
        for k, p in cases:
            for both in (False, True):
                def fn():
                    v = p()
                    g = {"title": "given"} if both else {}
                    return build(**{**g, k: v}), v, g

                def judge(run, out):
                    if out.kind == "raise":
                        return out.text()
                    o, v, g = out.value
                    r = problems(o, g, (k,))
                    if r:
                        return f"with {k} given, {r}"
                    n = "default_content_type" if k == "defaultContentType" else k
                    got = w.getattr(o, n)
                    t = sp.t["AsyncAPI3"]["fields"].get(n)
                    want = w.pyd.validate(sp.term(t["type"]), v) if t else v
                    if not deep(got, want):
                        return f"the given {k} is replaced by {show(got)}"
                    return None
                ob.run(f"as_builder({k}={'...' if p() is not None else None}{', title=...' if both else ''})", fn, judge, where=cls.qual)

    def behaviour(part):
        ob = Ob(ctx, part, "C15", RULE15)
        for where_, ref in (("channels", "#/channels/missing"), ("operations", "#/operations/missing"), ("servers", "#/servers/missing")):
            def fn():
                o = build()
                return outcome(w, lambda: w.setattr(o, where_, absval({"a": {"$ref": ref}})))
            ob.run(f"dangling reference in {where_} of a built document", fn, lambda run, out: out.text() if out.kind == "raise" else
                   None if out.value[0] == "bad" else "a dangling reference is accepted by a built document", where=cls.qual)

        def dangling():
            return outcome(w, lambda: build(channels=absval({"a": {"$ref": "#/channels/missing"}})))
        ob.run("dangling reference given to the builder", dangling, lambda run, out: out.text() if out.kind == "raise" else
               None if out.value[0] == "bad" else "a dangling reference is accepted by the builder", where=cls.qual)

        def fresh():
            o = build()
            for n, v in (("servers", sp.min("Server")), ("channels", {}), ("operations", {"action": "send", "channel": {"$ref": "#/channels/a"}})):
                w.setitem(w.getattr(o, n), "a", absval(v))
            c = w.getattr(o, "components")
            for s in SECTIONS:
                w.setitem(w.getattr(c, pyname[s]), "a", absval(sp.sample(sp.t["Components"]["fields"][pyname[s]]["type"])).get("entry") if False else absval({"$ref": "#/channels/a"}))
            w.call(w.getattr(w.getattr(o, "extra_validators"), "append"), [uni], {})
            return build()
        ob.run("a second document after filling the first", fresh, lambda run, out: out.text() if out.kind == "raise" else problems(out.value, {}), where=cls.qual)

        def fresh2():
            o = build(tags=IList([inst("Tag", name="a")]), description="d", license=inst("License", name="l"))
            w.setattr(w.getattr(o, "info"), "description", "changed")
            return build()
        ob.run("a second document with other info", fresh2, lambda run, out: out.text() if out.kind == "raise" else problems(out.value, {}), where=cls.qual)
        # positional order of the arguments

        def positional():
            a = {k: VALS[k][0]() for k in INFOARGS}
            return w.call(w.getattr(cls, "as_builder"), list(a.values()), {}), a
        ob.run("positional arguments", positional, lambda run, out: out.text() if out.kind == "raise" else problems(*out.value), where=cls.qual)
    ctx.pmap(lambda it, part: it(part), [lambda p, i=i: combos(i, p) for i in range(3)] + [kwargs, behaviour])


# ---------------------------------------------------------------------- C23
RULE23 = "the factory yields a reference to exactly the named entry, which resolves there"
FACTORIES = {f"to_root_{a}_name": (None, b) for a, b in (("server", "servers"), ("channel", "channels"), ("operation", "operations"))}
FACTORIES.update({f"to_component_{a}_name": ("components", b) for a, b in (
    ("schema", "schemas"), ("server", "servers"), ("channel", "channels"), ("operation", "operations"), ("message", "messages"),
    ("security_scheme", "securitySchemes"), ("server_variable", "serverVariables"), ("parameter", "parameters"), ("correlation_id", "correlationIds"),
    ("reply", "replies"), ("reply_address", "replyAddresses"), ("external_doc", "externalDocs"), ("tag", "tags"),
    ("operation_trait", "operationTraits"), ("message_trait", "messageTraits"), ("server_binding", "serverBindings"), ("channel_binding", "channelBindings"),
    ("operation_binding", "operationBindings"), ("message_binding", "messageBindings"))})


# entry names whose spelling a careless factory, resolver or validator could touch
SPELLINGS = ["-a", "a-", "_a", "a_", "-", "_", "--", "0", "007", "A", "aB", "a-b", "a_b", "x-y", "root", "components", "schemas", "name", "None", "true", "null", "ref", "id", "a" * 70, "Z" * 300,
             "get", "keys", "items", "model_fields", "__class__", "b64", "e1"]


def c23(ctx):
    sp = ctx.sp = Spec(ctx)
    w = ctx.w
    cls, ref = sp.cls("AsyncAPI3"), sp.cls("Reference")
    resolve = need(w, "resolve_reference", "asyncapi3.validators.utils", "asyncapi3.validators")
    pyname = {f["wire"]: n for n, f in sp.t["Components"]["fields"].items()}

    def entry(part_, wire):
        t = sp.t["Components"]["fields"][pyname[wire]]["type"] if part_ else sp.t["AsyncAPI3"]["fields"][wire]["type"]
        m = next(x for x in (t[1] if t[0] == "union" else [t]) if x[0] == "model")
        return sp.sample(sp.t[m[1]]["fields"]["root"]["type"][2])

    def make(fname, args, kw=None):
        f = w.getattr(ref, fname)
        return w.call(f, args, kw or {})

    def task(fname, part):
        section, wire = FACTORIES[fname]
        ob = Ob(ctx, part, "C23", RULE23)
        head = "#/" + (section + "/" if section else "") + wire + "/"

        def fn():
            n = mk(R().newkey("name"))
            return make(fname, [n]), n

        def judge(run, out):
            if out.kind == "raise":
                return out.text()
            r, n = out.value
            if not isinstance(r, Inst) or r.cls is not ref:
                return f"{show(r)} is returned instead of a Reference"
            if not truth(eq(w.getattr(r, "ref"), mk(head + core.raw(n)))):
                return f"the reference is {show(w.getattr(r, 'ref'))} instead of {head}<name>"
            return None
        ob.run(f"{fname} text", fn, judge, budget=2, where=f"{ref.qual}.{fname}")
        for nm in SPELLINGS:
            def fixed(nm=nm):
                return make(fname, [nm]), nm
            ob.run(f"{fname}({nm[:30]!r})", fixed, judge, where=f"{ref.qual}.{fname}")

        def spelled():
            o = R().sym("name", [AStr()])
            return make(fname, [o]), o

        def judge2(run, out):
            if out.kind == "raise":
                return out.text()
            r, n = out.value
            t = w.getattr(r, "ref")
            if not truth(eq(t, w.binop(ast.Add(), head, n))):
                return f"for some names the reference is {show(t)} instead of {head}<name>"
            return None
        ob.run(f"{fname} any name", spelled, judge2, where=f"{ref.qual}.{fname}")
        for full in (False, True):
            def resolved():
                n = mk(R().newkey("name"))
                d = absval({"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}})
                other = mk(R().newkey("other"))

                def entries(part_, s):
                    x = IDict()
                    if full:
                        x.set(other, absval(entry(part_, s)))
                    x.set(n, absval(entry(part_, s)))
                    return x
                if full:
                    for s in ("servers", "channels", "operations"):
                        d.set(s, entries(None, s))
                    c = IDict()
                    for s in SECTIONS:
                        c.set(s, entries("components", s))
                    d.set("components", c)
                elif section:
                    d.set("components", IDict([(wire, entries(section, wire))]))
                else:
                    d.set(wire, entries(None, wire))
                o = sp.validate(cls, d)
                box = w.getattr(w.getattr(o, section), pyname[wire]) if section else w.getattr(o, wire)
                r = w.call(resolve, [], {"ref": w.getattr(make(fname, [n]), "ref"), "spec": o})
                return None if r is None else w.getattr(r, "resolved_object"), w.getitem(box, n)

            def judge3(run, out):
                if out.kind == "raise":
                    return f"the reference does not resolve: {out.text()}"
                a, b = out.value
                return None if a is b else f"the reference resolves to {show(a)} instead of the entry"
            ob.run(f"{fname} resolves{' among everything else' if full else ''}", resolved, judge3, budget=1, where=f"{ref.qual}.{fname}")
    ctx.pmap(task, list(FACTORIES))


# ---------------------------------------------------------------------- C24
RULE24 = "equal references have equal hashes; the hash depends only on the reference string; different strings are not equal"


def c24(ctx):
    sp = ctx.sp = Spec(ctx)
    w = ctx.w
    ref = sp.cls("Reference")
    part = ctx.part
    ob = Ob(ctx, part, "C24", RULE24)

    def by_wire(s):
        return sp.validate(ref, IDict([("$ref", s)]))

    def by_name(s):
        return w.instantiate(ref, [], {"ref": s})

    def by_kwarg(s):
        return w.instantiate(ref, [], {"$ref": s})

    def assigned(s):
        o = by_wire("#/x/y")
        w.hash_(o)
        w.setattr(o, "ref", s)
        return o

    def again(s):
        return sp.validate(ref, by_wire(s))

    def nested(s):
        o = sp.validate(sp.cls("Tags") if "Tags" in sp.t else sp.cls("Channels"), IDict([("k", IDict([("$ref", s)]))]))
        return w.getitem(o, "k")

    def built(s):
        return w.call(w.getattr(ref, "model_construct"), [], {"ref": s})

    def unset(s):
        return w.call(w.getattr(ref, "model_construct"), [ISet()], {"ref": s})

    def copied(s):
        return w.call(w.getattr(by_wire(s), "model_copy"), [], {})

    def updated(s):
        return w.call(w.getattr(by_wire("#/x/y"), "model_copy"), [], {"update": IDict([("ref", s)])})
    WAYS = {"model_construct": built, "model_construct without set fields": unset, "copy": copied, "copy with another string": updated, "wire name": by_wire, "Python name": by_name, "keyword": by_kwarg, "assignment": assigned, "validated again": again, "in a map": nested}
    SPELL = {"any string": text("ref"), "an opaque path": lambda: mk("#/" + R().newkey("a") + "/" + R().newkey("b"))}
    for a, fa in WAYS.items():
        for b, fb in WAYS.items():
            def fn():
                s = R().sym("ref", [AStr()])
                x, y = fa(s), fb(s)
                return w.equal(x, y), w.hash_(x), w.hash_(y), w.contains(ISet([x]), y)

            def judge(run, out):
                if out.kind == "raise":
                    return out.text()
                e, h, k, c = out.value
                if not truth(e):
                    return "two references with the same string are not equal"
                if not truth(w.equal(h, k)):
                    return f"equal references have the hashes {show(h)} and {show(k)}"
                if not truth(c):
                    return "an equal reference is not found in a set"
                return None
            ob.run(f"same string, by {a} and by {b}", fn, judge, where=ref.qual)

            def fn2():
                s, t = mk("#/a/" + R().newkey("x")), mk("#/a/" + R().newkey("y"))
                return w.equal(fa(s), fb(t)), s, t

            def judge2(run, out):
                if out.kind == "raise":
                    return out.text()
                e, s, t = out.value
                return "references with different strings are equal" if truth(e) and not truth(eq(s, t)) else None
            ob.run(f"different names, by {a} and by {b}", fn2, judge2, where=ref.qual)
            for s, t in (("#/a/b", "#/a/c"), ("#/a/b", "#/a/b "), ("#/a/b", "#/a/B"), ("#/a/b", "/a/b"), ("#/a/b", "#/a/b/"), ("#/a~1b", "#/a/b"), ("#/a%2Fb", "#/a/b"),
                         ("", "#"), ("http://a", "http://a/"), ("http://a/b", "https://a/b"), ("\u00e9", "e\u0301")):
                def fn3():
                    return w.equal(fa(s), fb(t)), w.equal(fb(t), fa(s))
                ob.run(f"{s!r} and {t!r}, by {a} and by {b}", fn3, lambda run, out: out.text() if out.kind == "raise" else
                       "references with different strings are equal" if truth(out.value[0]) or truth(out.value[1]) else None, where=ref.qual)
    # any two strings: equality of references is equality of the strings
    def judge4(run, out):
        if out.kind == "raise":
            return out.text()
        e, s, t = out.value
        return None if truth(e) == truth(eq(s, t)) else f"references to {show(s)} and {show(t)}: equality is {show(e)}"
    for t in ["", "#", "#/a/b", "#/a/B", " #/a/b", "#/a/b\n", "#/channels/x/messages/y", "#/components/schemas/x", "http://x", "https://x", "https://x/Y?a=b#/c/d", "HTTP://X", "file.yaml#/a", "../a.json"]:
        def any2():
            s = R().sym("first", [AStr()])
            return w.equal(by_wire(s), by_wire(t)), s, t

        def other():
            s = R().sym("first", [AStr()])
            return w.equal(by_wire(t), by_wire(s)), s, t
        ob.run(f"any string and {t!r}", any2, judge4, where=ref.qual)
        ob.run(f"{t!r} and any string", other, judge4, where=ref.qual)

    def stable():
        s = R().sym("ref", [AStr()])
        o = by_wire(s)
        h = w.hash_(o)
        w.call(w.getattr(o, "model_dump"), [], {})
        k = w.hash_(o)
        return h, k, w.hash_(by_name(s))
    ob.run("the hash is stable", stable, lambda run, out: out.text() if out.kind == "raise" else
           None if truth(w.equal(out.value[0], out.value[1])) and truth(w.equal(out.value[0], out.value[2])) else "the hash of a reference changes", where=ref.qual)


CHECKS = {"C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C23": c23, "C24": c24}
