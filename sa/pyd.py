"""Model of the part of Pydantic the analysed package relies on.

The effective class model (fields, aliases, defaults, exclusion, configuration, validators,
generic substitution) is computed from the class statements the interpreter executed, with
Pydantic's inheritance rules.  `validate_model` is a model of validation on abstract values.
"""
from __future__ import annotations

import ast
import re
import types

import core
import lang
from core import R, IDict, ISet, IList, OStr, Sym, SYMS, Unk, Null, PyRaise, Undecided, Proxy
from core import conc, force, eq, truth, compare, show, kind, MISSING
from objs import ExtV, ExtCall, GenT, UnionT, ClassV, FuncV, Wrapped, PydDec, BoundV, Meth, FieldV, Inst, tname
from std import PydValidationError, PydUserError, UrlV

BASES = ("pydantic.BaseModel", "pydantic.main.BaseModel")
ROOTS = ("pydantic.RootModel", "pydantic.root_model.RootModel")


class T:
    """A type term: kind + payload, compared structurally."""

    __slots__ = ("k", "a", "_h")

    def __init__(self, k, *a):
        self.k, self.a = k, a

    def __eq__(self, o):
        if not isinstance(o, T) or self.k != o.k or len(self.a) != len(o.a):
            return False
        if self.k == "union":
            return set(self.a[0]) == set(o.a[0]) and self.a[1:] == o.a[1:]
        return self.a == o.a

    def __hash__(self):
        return hash((self.k, len(self.a)))

    def __repr__(self):
        k, a = self.k, self.a
        if k == "model" or k == "enum":
            return a[0].name
        if k == "union":
            return " | ".join(sorted(map(repr, a[0])))
        if k == "list":
            return f"list[{a[0]!r}]"
        if k == "set":
            return f"set[{a[0]!r}]"
        if k == "tuple":
            return f"tuple[{', '.join(map(repr, a[0]))}]"
        if k == "dict":
            return f"dict[{a[0]!r}, {a[1]!r}]"
        if k == "lit":
            return f"Literal{list(a[0])!r}"
        if k == "con":
            return repr(a[0])
        if k == "fn":
            return repr(a[2])
        if k in ("url", "opaque", "ext"):
            return str(a[0])
        return k


ANY, STR, INT, FLOAT, BOOL, NONE = T("any"), T("str"), T("int"), T("float"), T("bool"), T("none")
CONSTRAINTS = ("gt", "ge", "lt", "le", "multiple_of", "min_length", "max_length", "pattern", "strict")
URLS = ("AnyUrl", "AnyHttpUrl", "HttpUrl", "AnyWebsocketUrl", "WebsocketUrl", "FileUrl", "FtpUrl", "PostgresDsn", "RedisDsn", "KafkaDsn", "AmqpDsn", "NatsDsn")


class FM:
    """Effective model of one field."""

    def __init__(self, name, cls):
        self.name, self.cls = name, cls
        self.alias = self.ser_alias = self.val_alias = None
        self.default, self.factory = MISSING, None
        self.exclude, self.exclude_if = False, None
        self.kw = {}
        self.ann = None
        self.term = None
        self.meta = []
        self.validators = []   # (mode, function)
        self.serializers = []
        self.frozen = False
        self.site = None
        self.init = True

    @property
    def required(self):
        return self.default is MISSING and self.factory is None

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


class Info:
    def __init__(self, cls):
        self.cls = cls
        self.fields = {}
        self.config = {}
        self.before, self.after, self.wrap = [], [], []
        self.field_validators = []
        self.model_serializers = []
        self.field_serializers = []
        self.computed = []
        self.root = False
        self.private = {}


class VInfo(Proxy):
    """ValidationInfo."""

    __slots__ = ("data", "field_name", "mode", "context", "config")
    source = "python"

    def __init__(self, data, field_name):
        self.data, self.field_name, self.mode, self.context, self.config = data, field_name, VInfo.source, None, None

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


class Bad(Exception):
    """A value rejected by validation (line errors)."""

    def __init__(self, *errs):
        self.errs = errs


class Pyd:
    def __init__(self, world):
        self.w = world
        self.spec_cache = {}

    # ------------------------------------------------------------------ class model
    def is_model(self, cls):
        if not isinstance(cls, ClassV):
            return False
        v = cls.cache.get("is_model")
        if v is None:
            v = any(isinstance(b, ExtV) and (b.q in BASES or b.q in ROOTS) for b in cls.mro)
            cls.cache["is_model"] = v
        return v

    def is_root(self, cls):
        return any(isinstance(b, ExtV) and b.q in ROOTS for b in cls.mro)

    def config(self, cls):
        c = cls.cache.get("config")
        if c is None:
            c = {}
            for b in cls.bases:
                b = b.origin if isinstance(b, GenT) else b
                if isinstance(b, ClassV) and self.is_model(b):
                    c.update(self.config(b))
            own = cls.ns.get("model_config")
            if own is not None:
                own = conc(own)
                if isinstance(own, IDict):
                    for k, v in own.live():
                        c[k] = v
                elif isinstance(own, ExtCall):
                    c.update(own.kwargs)
                else:
                    raise Undecided(f"model_config of {cls.qual}")
            c.update(cls.kwargs or {})
            cls.cache["config"] = c
        return c

    def frozen(self, cls):
        return self.config(cls).get("frozen") is True

    def subst_env(self, cls):
        """TypeVar -> term value, over the bases of cls."""
        env = {}
        out = {}
        def walk(c, env):
            if c.params is not None:
                pass
            for b in c.bases:
                if isinstance(b, GenT) and isinstance(b.origin, ClassV):
                    ps = self.typeparams(b.origin)
                    sub = {}
                    for p, a in zip(ps, b.args):
                        sub[id(p)] = self.subst(a, env)
                    out[id(b.origin)] = sub
                    walk(b.origin, sub)
                elif isinstance(b, ClassV):
                    out.setdefault(id(b), env)
                    walk(b, env)
        out[id(cls)] = env
        walk(cls, env)
        return out

    def typeparams(self, c):
        if c.params is None:
            ps = []
            for b in c.bases:
                if isinstance(b, GenT) and isinstance(b.origin, ExtV) and b.origin.q == "typing.Generic":
                    ps = list(b.args)
                    break
            else:
                def collect(t):
                    if isinstance(t, ExtCall) and t.q == "typing.TypeVar":
                        if t not in ps:
                            ps.append(t)
                    elif isinstance(t, (GenT, UnionT)):
                        for a in t.args:
                            collect(a)
                for b in c.bases:
                    collect(b)
            c.params = ps
        return c.params

    def subst(self, t, env):
        if isinstance(t, ExtCall) and t.q == "typing.TypeVar":
            return env.get(id(t), t)
        if isinstance(t, GenT):
            return GenT(t.origin, [self.subst(a, env) for a in t.args])
        if isinstance(t, UnionT):
            return UnionT([self.subst(a, env) for a in t.args])
        return t

    def specialise(self, g: GenT):
        """The class PatternedRootModel[X] used as a type."""
        key = (id(g.origin), repr(g.args))
        for gg, c in self.spec_cache.get(key, ()):
            if gg == g:
                return c
        c = ClassV(repr(g), g.origin.module, [g], None, {})
        c.ns["__module__"] = g.origin.module.name
        self.spec_cache.setdefault(key, []).append((g, c))
        return c

    def info(self, cls) -> Info:
        i = cls.cache.get("info")
        if i is not None:
            return i
        i = cls.cache["info"] = Info(cls)
        i.config = self.config(cls)
        senv = self.subst_env(cls)
        order = [c for c in reversed(cls.mro)]
        w = self.w
        for c in order:
            if not isinstance(c, ClassV):
                if isinstance(c, ExtV) and c.q in ROOTS:
                    i.root = True
                    fm = FM("root", cls)
                    fm.ann = self.root_type(cls)
                    fm.term = self.term(fm.ann, cls, fm)
                    i.fields["root"] = fm
                continue
            for name in c.ann:
                if name == "model_config":
                    continue
                if name.startswith("_"):
                    i.private[name] = c.ns.get(name, MISSING)
                    continue
                t = self.ann_value(c, name)
                if isinstance(t, GenT) and isinstance(t.origin, ExtV) and t.origin.q == "typing.ClassVar" or isinstance(t, ExtV) and t.q == "typing.ClassVar":
                    i.fields.pop(name, None)
                    continue
                fm = FM(name, c)
                sub = senv.get(id(c), {})
                fm.ann = self.subst(t, sub)
                val = c.ns.get(name, MISSING)
                if val is MISSING and c is not cls:
                    pass
                self.fill(fm, val)
                fm.term = self.term(fm.ann, c, fm)
                i.fields[name] = fm
        # un-annotated overrides of a field's default are an error in Pydantic; ignore
        self.decorators(cls, i)
        ag = i.config.get("alias_generator")
        if ag is not None:
            for fm in i.fields.values():
                g = self.w.call(ag, [fm.name], {}) if not isinstance(ag, (ExtCall, ExtV)) else None
                if g is None:
                    raise Undecided(f"alias generator of {cls.qual}")
                if fm.alias is None:
                    fm.alias = g
                fm.ser_alias = fm.ser_alias or fm.alias
                fm.val_alias = fm.val_alias or fm.alias
        return i

    def ann_value(self, c, name):
        node, env = c.ann[name]
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            return self.fwd(node.value, env)
        return self.w.ev(node, env)

    def fwd(self, s, env):
        try:
            return self.w.ev(ast.parse(s, mode="eval").body, env)
        except SyntaxError:
            raise Undecided(f"annotation {s!r}")

    def root_type(self, cls):
        """Argument of RootModel in cls's hierarchy, substituted."""
        def walk(c, env):
            for b in c.bases:
                if isinstance(b, GenT):
                    args = [self.subst(a, env) for a in b.args]
                    if isinstance(b.origin, ExtV) and b.origin.q in ROOTS:
                        return args[0]
                    if isinstance(b.origin, ClassV):
                        ps = self.typeparams(b.origin)
                        r = walk(b.origin, {id(p): a for p, a in zip(ps, args)})
                        if r is not None:
                            return r
                elif isinstance(b, ClassV):
                    r = walk(b, {})
                    if r is not None:
                        return r
            return None
        r = walk(cls, {})
        # class attribute annotation `root: T` overrides
        for c in cls.mro:
            if isinstance(c, ClassV) and "root" in c.ann:
                return self.ann_value(c, "root")
        return r if r is not None else ExtV("typing.Any")

    def fill(self, fm, val):
        fm.site = getattr(fm.cls.node, "lineno", None)
        ann = fm.ann
        # Annotated at top level: metadata belongs to the field
        while isinstance(ann, GenT) and isinstance(ann.origin, ExtV) and ann.origin.q in ("typing.Annotated", "typing_extensions.Annotated"):
            for m in ann.args[1:]:
                if isinstance(m, ExtCall) and m.q in ("pydantic.Field", "pydantic.fields.Field"):
                    self.apply_field(fm, m)
                else:
                    fm.meta.append(m)
            ann = ann.args[0]
        fm.ann = ann
        if isinstance(val, ExtCall) and val.q in ("pydantic.Field", "pydantic.fields.Field"):
            self.apply_field(fm, val)
        elif isinstance(val, FieldV):
            o = val.fm
            fm.alias, fm.ser_alias, fm.val_alias = o.alias, o.ser_alias, o.val_alias
            fm.default, fm.factory, fm.exclude, fm.exclude_if = o.default, o.factory, o.exclude, o.exclude_if
            fm.kw = dict(o.kw)
        elif val is not MISSING:
            fm.default = val

    def apply_field(self, fm, call):
        kw = dict(call.kwargs)
        if call.args:
            kw.setdefault("default", call.args[0])
        if "default" in kw:
            d = kw["default"]
            undefined = d is Ellipsis or isinstance(d, ExtV) and d.name in ("PydanticUndefined", "Undefined")
            fm.default = MISSING if undefined else d
        if kw.get("default_factory") is not None:
            fm.factory = kw["default_factory"]
        if kw.get("alias") is not None:
            fm.alias = kw["alias"]
            fm.ser_alias = fm.ser_alias if kw.get("serialization_alias") is None and fm.kw.get("serialization_alias") else kw["alias"]
            fm.val_alias = kw["alias"]
        if kw.get("serialization_alias") is not None:
            fm.ser_alias = kw["serialization_alias"]
        if kw.get("validation_alias") is not None:
            fm.val_alias = kw["validation_alias"]
        if "exclude" in kw and kw["exclude"] is not None:
            fm.exclude = truth(kw["exclude"]) if not isinstance(kw["exclude"], bool) else kw["exclude"]
        if kw.get("exclude_if") is not None:
            fm.exclude_if = kw["exclude_if"]
        if kw.get("frozen"):
            fm.frozen = True
        if kw.get("init") is False:
            fm.init = False
        fm.kw.update(kw)

    def get_base_func(self, cls, name, f):
        r = cls.find(name)
        if r is None:
            return f
        v = r[1]
        if isinstance(v, PydDec):
            v = v.f
        return v

    def decorators(self, cls, i):
        dec = self.decs(cls)
        for kd, name, d in dec:
            f = self.get_base_func(cls, name, d.f)
            if kd == "field_validator":
                mode = d.kw("mode", "after")
                i.field_validators.append((name, mode, tuple(d.args), f, d))
            elif kd == "validator":
                raise Undecided(f"deprecated validator {name} in {cls.qual}")
            elif kd == "model_validator":
                mode = d.kw("mode", d.args[0] if d.args and isinstance(d.args[0], str) else None)
                getattr(i, mode).append((name, f))
            elif kd == "model_serializer":
                i.model_serializers.append((name, d, f))
            elif kd == "field_serializer":
                i.field_serializers.append((name, d, f))
            elif kd == "computed_field":
                i.computed.append(name)
        for name, mode, fields, f, d in i.field_validators:
            for fn, fm in i.fields.items():
                if fn in fields or "*" in fields:
                    fm.validators.append((mode, f, name))
        for name, d, f in i.field_serializers:
            for fn, fm in i.fields.items():
                if fn in d.args or "*" in d.args:
                    fm.serializers.append((name, d, f))

    def decs(self, cls):
        """Decorators of cls: inherited first, overridden names replaced in place."""
        r = cls.cache.get("decs")
        if r is not None:
            return r
        table = {}
        for b in reversed(cls.mro[1:]):
            if isinstance(b, ClassV) and self.is_model(b):
                for kd, name, d in self.own_decs(b):
                    table[(kd, name)] = (kd, name, d)
        for kd, name, d in self.own_decs(cls):
            table[(kd, name)] = (kd, name, d)
        r = list(table.values())
        cls.cache["decs"] = r
        return r

    def own_decs(self, c):
        out = []
        for n, v in c.ns.items():
            if isinstance(v, PydDec):
                out.append((v.kind, n, v))
        return out

    # ------------------------------------------------------------------ type terms
    def term(self, t, cls, fm=None):
        """Type term of an annotation value; constraints of Field apply on the outside."""
        base = self.term_(t, cls)
        if fm is not None:
            base = self.annotate(base, fm.meta, cls)
            if fm.kw.get("union_mode") == "left_to_right" and base.k == "union":
                base = T("union", base.a[0], "left_to_right")
            if fm.kw.get("discriminator") is not None and base.k == "union":
                base = T("union", base.a[0], ("discriminator", fm.kw["discriminator"]))
            cons = {k: fm.kw[k] for k in CONSTRAINTS if fm.kw.get(k) is not None}
            if cons:
                base = self.constrain(base, cons)
        return base

    def constrain(self, t, cons):
        if t.k == "union" and NONE in t.a[0]:
            rest = [x for x in t.a[0] if x != NONE]
            inner = self.constrain(rest[0] if len(rest) == 1 else T("union", tuple(rest), *t.a[1:]), cons)
            return T("union", (inner, NONE), *t.a[1:]) if len(rest) == 1 else T("nullable", inner)
        return T("con", t, tuple(sorted(cons.items(), key=lambda kv: kv[0])))

    def annotate(self, t, metas, cls):
        for m in metas:
            if isinstance(m, ExtCall):
                n = m.q.rsplit(".", 1)[-1]
                if n in ("AfterValidator", "BeforeValidator", "WrapValidator", "PlainValidator"):
                    t = T("fn", n[:-9].lower(), m.args[0] if m.args else m.kw("func"), t)
                elif n in ("Gt", "Ge", "Lt", "Le", "MultipleOf", "MinLen", "MaxLen"):
                    k = {"MultipleOf": "multiple_of", "MinLen": "min_length", "MaxLen": "max_length"}.get(n, n.lower())
                    t = self.constrain(t, {k: m.args[0] if m.args else next(iter(m.kwargs.values()))})
                elif n in ("Field",):
                    cons = {k: m.kwargs[k] for k in CONSTRAINTS if m.kwargs.get(k) is not None}
                    if cons:
                        t = self.constrain(t, cons)
                elif n == "StringConstraints":
                    cons = {k: m.kwargs[k] for k in CONSTRAINTS if m.kwargs.get(k) is not None}
                    for k in ("strip_whitespace", "to_lower", "to_upper"):
                        if m.kwargs.get(k):
                            cons[k] = True
                    t = self.constrain(t, cons)
                elif n in ("Strict",):
                    t = self.constrain(t, {"strict": True})
                elif n in ("SkipJsonSchema", "WithJsonSchema", "Tag", "Doc", "PlainSerializer", "WrapSerializer", "Discriminator"):
                    if "Serializer" in n:
                        t = T("ser", m, t)
                    if n == "Discriminator":
                        raise Undecided("callable discriminator")
                else:
                    raise Undecided(f"annotation metadata {m!r}")
            elif isinstance(m, (ExtV, str)) or m is None:
                if isinstance(m, ExtV) and m.name in ("Strict",):
                    t = self.constrain(t, {"strict": True})
            elif isinstance(m, FieldV):
                pass
            else:
                raise Undecided(f"annotation metadata {m!r}")
        return t

    def term_(self, t, cls):
        if t is None or t is type(None):
            return NONE
        if isinstance(t, str):
            return self.term_(self.fwd(t, cls.env if cls.env is not None else None), cls)
        if t is str:
            return STR
        if t is int:
            return INT
        if t is float:
            return FLOAT
        if t is bool:
            return BOOL
        if t is object:
            return ANY
        if t is dict:
            return T("dict", ANY, ANY)
        if t is list:
            return T("list", ANY)
        if t is tuple:
            return T("tuple", (), ANY)
        if t in (set, frozenset) if isinstance(t, type) else False:
            return T("set", ANY)
        if isinstance(t, type):
            return T("opaque", t.__name__)
        if isinstance(t, UnionT):
            args = []
            for a in t.args:
                x = self.term_(a, cls)
                for y in (x.a[0] if x.k == "union" and len(x.a) == 1 else (x,)):
                    if y not in args:
                        args.append(y)
            return T("union", tuple(args)) if len(args) > 1 else args[0]
        if isinstance(t, GenT):
            o = t.origin
            if isinstance(o, ExtV):
                n = o.name
                if n == "Annotated":
                    return self.annotate(self.term_(t.args[0], cls), t.args[1:], cls)
                if n == "SkipJsonSchema":
                    return self.term_(t.args[0], cls)
                if n == "Literal":
                    return T("lit", tuple(sorted(self.lit_values(t.args), key=repr)))
                if n in ("List", "Sequence", "MutableSequence", "Iterable", "Collection", "Deque"):
                    return T("list", self.term_(t.args[0], cls))
                if n in ("Dict", "Mapping", "MutableMapping", "OrderedDict", "DefaultDict"):
                    return T("dict", self.term_(t.args[0], cls), self.term_(t.args[1], cls))
                if n in ("Set", "FrozenSet", "AbstractSet"):
                    return T("set", self.term_(t.args[0], cls))
                if n in ("Optional",):
                    return self.term_(UnionT([t.args[0], None]), cls)
                if n in ("Type", "type"):
                    return T("type", self.term_(t.args[0], cls))
                if n in ("Final", "Required", "NotRequired", "ReadOnly"):
                    return self.term_(t.args[0], cls)
                if n == "Callable":
                    return T("callable")
                if n in ("Tuple",):
                    return self.term_(GenT(tuple, t.args), cls)
                return T("opaque", repr(t))
            if o in (list,):
                return T("list", self.term_(t.args[0], cls))
            if o in (dict,):
                return T("dict", self.term_(t.args[0], cls), self.term_(t.args[1], cls))
            if o in (set, frozenset):
                return T("set", self.term_(t.args[0], cls))
            if o is tuple:
                if len(t.args) == 2 and t.args[1] is Ellipsis:
                    return T("tuple", (), self.term_(t.args[0], cls))
                return T("tuple", tuple(self.term_(a, cls) for a in t.args), None)
            if o is type:
                return T("type", self.term_(t.args[0], cls))
            if isinstance(o, type):
                n = o.__name__
                if n in ("Sequence", "Iterable", "MutableSequence", "Collection", "deque"):
                    return T("list", self.term_(t.args[0], cls))
                if n in ("Mapping", "MutableMapping", "OrderedDict", "defaultdict"):
                    return T("dict", self.term_(t.args[0], cls), self.term_(t.args[1], cls))
                if n in ("Set", "MutableSet"):
                    return T("set", self.term_(t.args[0], cls))
                if n == "Callable":
                    return T("callable")
                return T("opaque", repr(t))
            if isinstance(o, ClassV):
                if self.is_model(o):
                    return T("model", self.specialise(t))
                return T("opaque", repr(t))
            return T("opaque", repr(t))
        if isinstance(t, ClassV):
            if self.is_model(t):
                return T("model", t)
            if t.cache.get("enum") is not None:
                return T("enum", t)
            r = t.find("__get_pydantic_core_schema__")
            if r is not None:
                c = t.cache.get("schema")
                if c is None:
                    h = Meth("handler", lambda x: ExtCall("sa.schema", (x,), {}))
                    try:
                        c = self.schema_term(self.w.call(self.w.getattr(t, "__get_pydantic_core_schema__"), [t, h], {}), t)
                    except PyRaise as e:
                        raise Undecided(f"core schema of {t.qual}: {e}")
                    c = T("custom", t, c)
                    t.cache["schema"] = c
                return c
            for b in t.mro:
                if b in (str, int, float):
                    return T("custom", t, T("fn", "after", t, self.term_(b, cls)))
            return T("inst", t)
        if isinstance(t, ExtV):
            n = t.name
            if n == "Any":
                return ANY
            if n in URLS:
                return T("url", n)
            if n in ("StrictStr",):
                return STR
            if n in ("StrictInt",):
                return T("con", INT, (("strict", True),))
            if n in ("StrictBool",):
                return T("con", BOOL, (("strict", True),))
            if n == "StrictFloat":
                return T("con", FLOAT, (("strict", True),))
            if n in ("PositiveInt", "NonNegativeInt", "NegativeInt", "NonPositiveInt"):
                k = {"PositiveInt": "gt", "NonNegativeInt": "ge", "NegativeInt": "lt", "NonPositiveInt": "le"}[n]
                return T("con", INT, ((k, 0),))
            if n in ("PositiveFloat", "NonNegativeFloat"):
                return T("con", FLOAT, (("gt" if n[0] == "P" else "ge", 0),))
            if n in ("Dict", "Mapping"):
                return T("dict", ANY, ANY)
            if n in ("List", "Sequence"):
                return T("list", ANY)
            return T("ext", t.q)
        if isinstance(t, ExtCall):
            if t.q == "typing.TypeVar":
                b = t.kw("bound")
                return self.term_(b, cls) if b is not None else ANY
            if t.q.startswith("pydantic_core.core_schema."):
                return self.schema_term(t, cls)
            if t.q in ("typing.NewType",):
                return self.term_(t.args[1], cls)
            n = t.q.rsplit(".", 1)[-1]
            if n in ("constr", "conint", "confloat"):
                base = {"constr": STR, "conint": INT, "confloat": FLOAT}[n]
                return T("con", base, tuple(sorted((k, v) for k, v in t.kwargs.items() if v is not None)))
            return T("opaque", t.q)
        if isinstance(t, FieldV) or isinstance(t, Unk):
            raise Undecided(f"type {t!r}")
        return T("opaque", repr(t))

    def lit_values(self, args):
        out = []
        for a in args:
            if isinstance(a, GenT) and isinstance(a.origin, ExtV) and a.origin.name == "Literal":
                out.extend(self.lit_values(a.args))
            elif isinstance(a, tuple):
                out.extend(self.lit_values(a))
            elif a not in out:
                out.append(a)
        return out

    def schema_term(self, s, cls):
        if isinstance(s, ExtCall):
            if s.q == "sa.schema":
                return self.term_(s.args[0], cls)
            n = s.q.rsplit(".", 1)[-1]
            args, kw = list(s.args), dict(s.kwargs)

            def arg(i, name, d=MISSING):
                if i < len(args):
                    return args[i]
                if name in kw:
                    return kw[name]
                return d
            m = re.match(r"(no_info|with_info)_(before|after|wrap)_validator_function", n)
            if m:
                t = self.schema_term(arg(1, "schema"), cls)
                return T("fn", m.group(2) + ("+info" if m.group(1) == "with_info" else ""), arg(0, "function"), t)
            m = re.match(r"(no_info|with_info)_plain_validator_function", n)
            if m:
                return T("fn", "plain" + ("+info" if m.group(1) == "with_info" else ""), arg(0, "function"), ANY)
            if n in ("str_schema", "int_schema", "float_schema", "bool_schema"):
                base = {"s": STR, "i": INT, "f": FLOAT, "b": BOOL}[n[0]]
                kw.pop("serialization", None)
                cons = {k: v for k, v in kw.items() if v is not None and k not in ("ref", "metadata")}
                return T("con", base, tuple(sorted(cons.items(), key=lambda x: x[0]))) if cons else base
            if n == "any_schema":
                return ANY
            if n == "none_schema":
                return NONE
            if n == "nullable_schema":
                return T("nullable", self.schema_term(arg(0, "schema"), cls))
            if n == "union_schema":
                return T("union", tuple(self.schema_term(x, cls) for x in self.w.iterate(arg(0, "choices"))))
            if n == "chain_schema":
                return T("chain", tuple(self.schema_term(x, cls) for x in self.w.iterate(arg(0, "steps"))))
            if n == "json_or_python_schema":
                return self.schema_term(arg(1, "python_schema"), cls)
            if n == "is_instance_schema":
                return T("inst", arg(0, "cls"))
            if n == "literal_schema":
                return T("lit", tuple(sorted(self.w.iterate(arg(0, "expected")), key=repr)))
            if n == "list_schema":
                return T("list", self.schema_term(arg(0, "items_schema", ExtCall("pydantic_core.core_schema.any_schema", (), {})), cls))
            if n == "dict_schema":
                return T("dict", self.schema_term(arg(0, "keys_schema"), cls), self.schema_term(arg(1, "values_schema"), cls))
            raise Undecided(f"core schema {n}")
        if isinstance(s, IDict):
            k = s.get("type")
            if k in ("str", "int", "float", "bool", "any", "none"):
                return T(k)
        raise Undecided(f"core schema {s!r}")

    # ------------------------------------------------------------------ construction and validation
    def title(self, cls):
        return cls.name

    def verror(self, cls, errs):
        return PyRaise(PydValidationError(cls.name if isinstance(cls, ClassV) else str(cls), list(errs)), self.w.here())

    def construct(self, cls, args, kw):
        w = self.w
        init = cls.find("__init__")
        if init is not None:
            o = Inst(cls)
            o.fset = ISet()
            w.call(init[1], [o] + list(args), kw)
            return o
        o = Inst(cls)
        self.init(o, args, kw)
        return o

    def init(self, o, args, kw):
        """BaseModel.__init__ / RootModel.__init__."""
        cls = o.cls
        w = self.w
        if self.is_root(cls):
            if "root" in kw and not args:
                args, kw = [kw["root"]], {k: v for k, v in kw.items() if k != "root"}
            if kw:
                if args:
                    raise PyRaise(ValueError("RootModel.__init__ accepts either a single positional argument or arbitrary keyword arguments"), w.here())
                data = IDict(list(kw.items()))
            elif args:
                data = args[0]
            else:
                data = MISSING
        else:
            if args:
                raise PyRaise(TypeError(f"BaseModel.__init__() takes 1 positional argument but {len(args) + 1} were given"), w.here())
            data = IDict(list(kw.items()))
        h = w.hooks.get("pyd:init")
        if h is not None:
            r = h(o, data)
            if r is not w_unbound():
                return
        self.top(cls, data, o)

    # how exactly the value fitted (0 converted, 1 loosely, 2 exactly) and how many model fields it set:
    # what pydantic compares to choose a member of a union
    ex = 2
    cnt = None

    def floor(self, level):
        if level < self.ex:
            self.ex = level

    def top(self, cls, data, target=None):
        old = self.ex, self.cnt
        self.ex, self.cnt = 2, None
        try:
            return self.validate_model(cls, data, target)
        except Bad as e:
            raise self.verror(cls, e.errs)
        finally:
            self.ex, self.cnt = old

    def guard(self, fn, *a):
        """Call a user validator: ValueError and AssertionError become line errors."""
        try:
            return self.w.call(fn, list(a), {})
        except PyRaise as e:
            if self.w.exc_matches(e.exc, (ValueError, AssertionError)):
                raise Bad(("value_error", e)) from None
            if isinstance(e.exc, Inst) and any(isinstance(b, ExtV) and b.name in ("PydanticCustomError", "PydanticKnownError") for b in e.exc.cls.mro):
                raise Bad(("custom", e)) from None
            if isinstance(e.exc, ExtCall) or isinstance(e.exc, ExtV):
                raise Bad(("custom", e)) from None
            raise

    def bound(self, f, cls):
        """A validator function as stored, bound to the class where it is a classmethod."""
        if isinstance(f, Wrapped):
            if f.kind == "classmethod":
                return BoundV(f.f, cls)
            return f.f
        return f

    def nparams(self, f):
        g = f
        k = 0
        if isinstance(g, BoundV):
            g, k = g.f, 1
        if isinstance(g, FuncV):
            a = g.node.args
            n = len(a.posonlyargs + a.args) - k
            if a.vararg is not None:
                return 2, True
            return n - len(g.defaults), n >= 1
        return 1, True

    def call_validator(self, f, cls, v, field, data, wrap=None):
        f = self.field_func(f, cls)
        n, _ = self.nparams(f)
        args = [v]
        base = 1
        if wrap is not None:
            args.append(wrap)
            base = 2
        if n > base:
            args.append(VInfo(data, field))
        return self.guard(f, *args)

    def field_func(self, f, cls):
        if isinstance(f, Wrapped):
            if f.kind == "classmethod":
                return BoundV(f.f, cls)
            return f.f
        if isinstance(f, FuncV) and f.defcls is not None:
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            # pydantic turns a plain function whose first parameter is `cls` into a classmethod
            if names and names[0] == "cls":
                return BoundV(f, cls)
        return f

    def validate_model(self, cls, data, target=None):
        i = self.info(cls)
        data = force(data)
        # before validators run outermost-last-defined first
        for name, f in reversed(i.before):
            fn = self.field_func(f, cls)
            n, _ = self.nparams(fn)
            data = self.guard(fn, *([data] + ([VInfo(IDict(), None)] if n > 1 else [])))

        def inner(data):
            return self.validate_core(cls, i, data, target)
        run = inner
        for name, f in i.wrap:
            prev = run
            fn = self.field_func(f, cls)

            def run(data, fn=fn, prev=prev):
                def handler(d):
                    try:
                        return prev(d)
                    except Bad as e:
                        raise self.verror(cls, e.errs)
                n, _ = self.nparams(fn)
                return self.guard(fn, *([data, Meth("handler", handler)] + ([VInfo(IDict(), None)] if n > 2 else [])))
        o = run(data)
        return self.run_after(cls, i, o)

    def run_after(self, cls, i, o):
        h = self.w.hooks.get("pyd:after")
        if h is not None:
            h(cls, o)
        for name, f in i.after:
            g = f
            if isinstance(g, Wrapped) and g.kind == "classmethod":
                o = self.guard(BoundV(g.f, cls), o)
                continue
            g = g.f if isinstance(g, Wrapped) else g
            n, _ = self.nparams(g)
            o = self.guard(g, *([o] + ([VInfo(IDict(), None)] if n > 1 else [])))
        return o

    def validate_core(self, cls, i, data, target):
        w = self.w
        cfg = i.config
        data = conc(data)
        if isinstance(data, Unk):
            R().taint = R().taint or f"validation of an unknown value by {cls.name}"
            return self.opaque_inst(cls, data)
        src = None
        if isinstance(data, Inst) and self.is_model(data.cls) and data.cls.is_sub(cls):
            rv = cfg.get("revalidate_instances", "never")
            if target is None and (rv == "never" or rv == "subclass-instances" and data.cls is cls):
                return data
            self.force_fields(data)
            src = data
        o = target if target is not None else Inst(cls)
        if core._cur:
            R().keep.append(o)
        errs = []
        out = IDict()
        extra = IDict() if cfg.get("extra") == "allow" else None
        fset = ISet()
        if i.root:
            fm = i.fields["root"]
            v = data
            if src is not None:
                v = src.d.get("root")
            if v is MISSING:
                if fm.required:
                    raise Bad(("missing", ("root",)))
                v = self.default(fm)
                out.set("root", v)
            else:
                try:
                    out.set("root", self.validate_field(cls, fm, v, out))
                except Bad as e:
                    raise Bad(*e.errs)
                fset.add("root")
        else:
            if src is not None:
                pairs = IDict([(k, v) for k, v in src.d.live()])
                if isinstance(src.extra, IDict):
                    for k, v in src.extra.live():
                        pairs.set(k, v)
                srcset = src.fset
            elif isinstance(data, IDict):
                pairs, srcset = data, None
            elif isinstance(data, Inst) and truth(cfg.get("from_attributes") or False):
                raise Undecided("from_attributes")
            else:
                raise Bad(("model_type", show(data)))
            used = []
            nset = 0
            byname = truth(cfg.get("validate_by_name") or cfg.get("populate_by_name") or False)
            byalias = cfg.get("validate_by_alias")
            byalias = True if byalias is None else truth(byalias)
            for n, fm in i.fields.items():
                names = []
                if src is not None:
                    names = [n]
                else:
                    if byalias and fm.val_alias is not None:
                        if isinstance(fm.val_alias, ExtCall) and fm.val_alias.q.endswith(".AliasChoices") and all(isinstance(x, str) for x in fm.val_alias.args):
                            names += fm.val_alias.args
                        elif isinstance(fm.val_alias, (ExtCall, ExtV)):
                            raise Undecided("alias path")
                        else:
                            names.append(fm.val_alias)
                    if byname or fm.val_alias is None:
                        names.append(n)
                v = MISSING
                for k in names:
                    if k in pairs:
                        v = pairs.get(k)
                        used.append(k)
                        break
                if v is MISSING:
                    if fm.required:
                        errs.append(("missing", (fm.val_alias or n,)))
                        continue
                    v = self.default(fm)
                    if cfg.get("validate_default") or fm.kw.get("validate_default"):
                        try:
                            v = self.validate_field(cls, fm, v, out)
                        except Bad as e:
                            errs.extend(e.errs)
                            continue
                    out.set(n, v)
                    continue
                try:
                    out.set(n, self.validate_field(cls, fm, v, out))
                except Bad as e:
                    errs.extend((*x, n) for x in e.errs)
                    continue
                nset += 1
                if srcset is None or n in srcset:
                    fset.add(n)
            mode = cfg.get("extra", "ignore")
            for k, v in pairs.live():
                if any(eq(k, u) for u in used):
                    continue
                if mode == "forbid":
                    errs.append(("extra_forbidden", k))
                elif mode == "allow":
                    if not isinstance(force(k), (str, OStr)) and kind(k) != "str":
                        errs.append(("invalid_key", k))
                        continue
                    extra.set(k, v)
                    fset.add(k)
        if errs:
            raise Bad(*errs)
        if src is None:
            self.floor(1)
        if not i.root:
            self.cnt = (self.cnt or 0) + nset
        o.d = out
        o.extra = extra
        o.fset = fset
        o.lazy = None
        for n, d in i.private.items():
            if d is not MISSING:
                if o.private is None:
                    o.private = IDict()
                dd = d
                if isinstance(d, ExtCall):
                    dd = d.kw("default", d.args[0] if d.args else MISSING)
                    if d.kw("default_factory") is not None:
                        dd = w.call(d.kw("default_factory"), [], {})
                if dd is not MISSING:
                    o.private.set(n, dd)
        return o

    def opaque_inst(self, cls, data):
        return Unk(f"a {cls.name}")

    def default(self, fm):
        if fm.factory is not None:
            return self.w.call(fm.factory, [], {})
        d = fm.default
        if isinstance(d, (IDict, ISet, list)):
            return self.w.std.copy(d, True)
        return d

    def validate_field(self, cls, fm, v, data):
        t = fm.term
        return self.apply_validators(cls, fm, v, data, lambda x: self.validate(t, x))

    def apply_validators(self, cls, fm, v, data, inner):
        run = inner
        for mode, f, name in fm.validators:
            prev = run
            if mode == "before":
                def run(x, f=f, prev=prev):
                    return prev(self.call_validator(f, cls, x, fm.name, data))
            elif mode == "after":
                def run(x, f=f, prev=prev):
                    return self.call_validator(f, cls, prev(x), fm.name, data)
            elif mode == "plain":
                def run(x, f=f):
                    return self.call_validator(f, cls, x, fm.name, data)
            elif mode == "wrap":
                def run(x, f=f, prev=prev):
                    def h(y):
                        try:
                            return prev(y)
                        except Bad as e:
                            raise self.verror(cls, e.errs)
                    return self.call_validator(f, cls, x, fm.name, data, wrap=Meth("handler", h))
            else:
                raise Undecided(f"validator mode {mode}")
        return run(v)

    # -------- values against type terms
    def strictly(self, t, v):
        """Does v inhabit t without conversion (for choosing a union member)?"""
        k = t.k
        v = force(v)
        if k == "any":
            return True
        if k == "str":
            return isinstance(v, (str, OStr)) or isinstance(v, SYMS) and kind(v) == "str"
        if k == "int":
            return isinstance(v, int) and not isinstance(v, bool) or isinstance(v, SYMS) and kind(v) == "int"
        if k == "float":
            return isinstance(v, float) or isinstance(v, SYMS) and kind(v) == "float"
        if k == "bool":
            return isinstance(v, bool) or isinstance(v, SYMS) and kind(v) == "bool"
        if k == "none":
            return v is None or isinstance(v, SYMS) and kind(v) == "none"
        if k == "model":
            v = conc(v)
            return isinstance(v, Inst) and v.cls.is_sub(t.a[0])
        if k == "list":
            return isinstance(conc(v), list)
        if k == "dict":
            return isinstance(conc(v), IDict)
        if k == "lit":
            return any((not isinstance(x, bool) or kind(v) == "bool") and eq(v, x) for x in t.a[0])
        if k in ("con", "nullable"):
            return self.strictly(t.a[0], v)
        if k == "union":
            return any(self.strictly(x, v) for x in t.a[0])
        if k == "fn":
            return self.strictly(t.a[2], v)
        if k == "custom":
            return self.strictly(t.a[1], v)
        if k == "ser":
            return self.strictly(t.a[1], v)
        if k == "url":
            return isinstance(v, UrlV)
        return False

    def validate(self, t, v):
        w = self.w
        k = t.k
        v = force(v)
        if isinstance(v, Unk):
            R().taint = R().taint or "validation of an unknown value"
            return v
        if k == "any":
            self.floor(1)
            return v
        if k == "str":
            if isinstance(v, (str, OStr)):
                return v
            if isinstance(v, SYMS) and kind(v) == "str":
                return v
            if isinstance(v, Inst) and w.std.is_enum(v) and w.std.enum_mixin(v.cls) is str:
                self.floor(1)
                return v.d.get("value")
            if isinstance(v, bytes):
                self.floor(0)
                try:
                    return v.decode()
                except UnicodeDecodeError:
                    raise Bad(("string_unicode", show(v)))
            raise Bad(("string_type", show(v)))
        if k in ("int", "float", "bool"):
            return self.validate_num(k, v)
        if k == "none":
            if v is None or isinstance(v, SYMS) and kind(v) == "none":
                return None
            raise Bad(("none_required",))
        if k == "lit":
            for x in t.a[0]:
                if isinstance(x, bool) and kind(v) != "bool":
                    continue
                if eq(v, x):
                    return x
            raise Bad(("literal_error", show(v)))
        if k == "nullable":
            if v is None or isinstance(v, SYMS) and kind(v) == "none":
                return None
            return self.validate(t.a[0], v)
        if k == "union":
            return self.validate_union(t, v)
        if k == "list":
            v = conc(v)
            if isinstance(v, Inst) and w.typeattr(v.cls, "__iter__") is None and w.typeattr(v.cls, "__getitem__") is None and not self.is_model(v.cls):
                raise Bad(("list_type",))
            if isinstance(v, (str, bytes, OStr, IDict)) or v is None or isinstance(v, (int, float) + SYMS):
                raise Bad(("list_type", show(v)))
            errs, out = [], []
            try:
                items = w.iterate(v)
            except PyRaise as e:
                if not isinstance(e.exc, TypeError):
                    raise
                raise Bad(("list_type", show(v)))
            if not isinstance(v, list):
                self.floor(0)
            if t.a[0].k == "any":
                return list(items)
            for n, x in enumerate(items):
                try:
                    out.append(self.validate(t.a[0], x))
                except Bad as e:
                    errs.extend((*y, n) for y in e.errs)
            if errs:
                raise Bad(*errs)
            return out
        if k == "tuple":
            v = conc(v)
            if not isinstance(v, (list, tuple)):
                raise Bad(("tuple_type",))
            if t.a[1] is not None:
                return tuple(self.validate(t.a[1], x) for x in v)
            if len(v) != len(t.a[0]):
                raise Bad(("tuple_length",))
            return tuple(self.validate(a, x) for a, x in zip(t.a[0], v))
        if k == "set":
            v = conc(v)
            if not isinstance(v, (list, tuple, ISet)):
                raise Bad(("set_type",))
            if not isinstance(v, ISet):
                self.floor(0)
            return ISet([self.validate(t.a[0], x) for x in w.iterate(v)])
        if k == "dict":
            v = conc(v)
            if not isinstance(v, IDict):
                raise Bad(("dict_type", show(v)))
            out, errs = IDict(), []
            for kk, x in v.live():
                try:
                    k2 = self.validate(t.a[0], kk)
                    out.set(k2, self.validate(t.a[1], x))
                except Bad as e:
                    errs.extend((*y, kk) for y in e.errs)
            if errs:
                raise Bad(*errs)
            return out
        if k == "model":
            return self.validate_nested(t.a[0], v)
        if k == "enum":
            v = conc(v)
            if isinstance(v, Inst) and v.cls is t.a[0]:
                return v
            for m in t.a[0].cache["enum"].vals_():
                if eq(m.d.get("value"), v):
                    self.floor(0)
                    return m
            raise Bad(("enum", show(v)))
        if k == "con":
            return self.validate_con(t, v)
        if k == "fn":
            mode, f, inner = t.a
            info = mode.endswith("+info")
            mode = mode.split("+")[0]
            more = [VInfo(IDict(), None)] if info else []
            if not info and isinstance(f, (FuncV, BoundV)) and mode != "wrap" and self.nparams(f)[0] > 1:
                more = [VInfo(IDict(), None)]
            if mode == "after":
                return self.guard(f, self.validate(inner, v), *more)
            if mode == "before":
                return self.validate(inner, self.guard(f, v, *more))
            if mode == "plain":
                return self.guard(f, v, *more)
            if mode == "wrap":
                def h(y):
                    try:
                        return self.validate(inner, y)
                    except Bad as e:
                        raise self.verror("wrapped", e.errs)
                if isinstance(f, (FuncV, BoundV)) and self.nparams(f)[0] > 2:
                    more = [VInfo(IDict(), None)]
                return self.guard(f, v, Meth("handler", h), *more)
        if k == "custom":
            return self.validate(t.a[1], v)
        if k == "ser":
            return self.validate(t.a[1], v)
        if k == "chain":
            for s in t.a[0]:
                v = self.validate(s, v)
            return v
        if k == "url":
            if isinstance(v, UrlV):
                return v
            if isinstance(v, (str, OStr)) or isinstance(v, SYMS) and kind(v) == "str":
                if core.ask_lang(v, lang.regex(r"[A-Za-z][A-Za-z0-9+.\-]*:.+", re.S, "fullmatch"), "is a URL"):
                    self.floor(0)
                    return UrlV(ExtV("pydantic." + t.a[0]), v)
            raise Bad(("url_type", show(v)))
        if k == "type":
            v = conc(v)
            if isinstance(v, (ClassV, type)):
                if t.a[0].k in ("model", "inst") and isinstance(v, ClassV):
                    p = t.a[0].a[0]
                    if not v.is_sub(p) and not self.structural(v, p):
                        raise Bad(("is_subclass_of",))
                return v
            raise Bad(("is_type",))
        if k == "inst":
            v = conc(v)
            if isinstance(v, Inst) and v.cls.is_sub(t.a[0]) if isinstance(t.a[0], ClassV) else w.isinstance_(v, t.a[0]):
                return v
            raise Bad(("is_instance_of", show(v)))
        if k == "callable":
            return v
        raise Undecided(f"validation against {t!r}")

    def structural(self, c, p):
        """c implements the runtime-checkable protocol p."""
        if not isinstance(p, ClassV) or not any(getattr(b, "name", getattr(b, "qual", "")).rsplit(".", 1)[-1] == "Protocol" for b in p.bases):
            return False
        ms = [k for k, x in p.ns.items() if isinstance(x, FuncV)]
        return bool(ms) and all(c.find(k) is not None for k in ms)

    def validate_num(self, k, v):
        f = kind(v) if isinstance(v, SYMS) else "bool" if isinstance(v, bool) else "int" if isinstance(v, int) else "float" if isinstance(v, float) else ""
        r = self.validate_num1(k, v)
        if f != k:
            self.floor(1 if f == "int" and k == "float" else 0)
        return r

    def validate_num1(self, k, v):
        if isinstance(v, SYMS):
            kk = kind(v)
            if kk == k or kk == "int" and k == "float":
                return v
            v = force(v)
            if isinstance(v, SYMS):
                v = core.concretize(v)
        if isinstance(v, Inst) and self.w.std.is_enum(v) and isinstance(v.d.get("value"), (int, float)):
            v = v.d.get("value")
        if isinstance(v, OStr):
            v = core.concretize(v)
        if k == "bool":
            if isinstance(v, bool):
                return v
            if isinstance(v, (int, float)) and v in (0, 1):
                return bool(v)
            if isinstance(v, str) and v.lower() in ("true", "t", "yes", "y", "on", "1"):
                return True
            if isinstance(v, str) and v.lower() in ("false", "f", "no", "n", "off", "0"):
                return False
            raise Bad(("bool_parsing", show(v)))
        if k == "int":
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, int):
                return v
            if isinstance(v, float) and v == v and abs(v) != float("inf") and v == int(v):
                return int(v)
            if isinstance(v, str) and re.fullmatch(r"\s*[+-]?\d[\d_]*(\.0*)?\s*", v, re.A):
                return int(v.strip().split(".")[0].replace("_", ""))
            raise Bad(("int_parsing", show(v)))
        if isinstance(v, (bool, int, float)):
            return float(v)
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                pass
        raise Bad(("float_parsing", show(v)))

    def validate_con(self, t, v):
        inner, cons = t.a
        cons = dict(cons)
        base = inner
        while base.k in ("fn", "ser"):
            base = base.a[2] if base.k == "fn" else base.a[1]
        if cons.get("strict") and not self.strictly(inner, v):
            raise Bad(("strict", show(v)))
        v = self.validate(inner, v)
        if base.k == "str":
            for k in ("strip_whitespace", "to_lower", "to_upper"):
                if cons.get(k):
                    m = {"strip_whitespace": "strip", "to_lower": "lower", "to_upper": "upper"}[k]
                    v = self.w.call(self.w.getattr(v, m), [], {})
        for k, c in cons.items():
            if k in ("gt", "ge", "lt", "le"):
                op = {"gt": ">", "ge": ">=", "lt": "<", "le": "<="}[k]
                try:
                    ok = compare(op, v, c)
                except TypeError:
                    raise PyRaise(TypeError(f"Unable to apply constraint '{k}' to supplied value {show(v)}"), self.w.here())
                if not ok:
                    raise Bad((k, show(v)))
            elif k in ("min_length", "max_length"):
                op = ">=" if k == "min_length" else "<="
                x = conc(v)
                try:
                    if isinstance(x, SYMS):
                        if kind(x) != "str":
                            raise TypeError
                        ok = core.ask_len(x, op, c)
                    elif isinstance(x, OStr):
                        ok = core.host_cmp(op, len(core.concretize(x)), c)
                    elif isinstance(x, (Unk,)):
                        ok = core.unk_bool("length")
                    else:
                        try:
                            ln = self.w.len_(x)
                        except PyRaise:
                            raise TypeError
                        ok = compare(op, ln, c)
                except TypeError:
                    raise PyRaise(TypeError(f"Unable to apply constraint '{k}' to supplied value {show(v)}"), self.w.here())
                if not ok:
                    raise Bad((k, show(v)))
            elif k == "pattern":
                if base.k != "str":
                    raise Undecided("pattern on a non-string")
                p = c.p if hasattr(c, "p") else c
                d = rust_regex(p)
                if not core.ask_lang(v, d, f"matches {p!r}"):
                    raise Bad(("pattern", show(v)))
            elif k == "multiple_of":
                x = conc(v)
                x = core.concretize(x) if isinstance(x, SYMS) else x
                if x % c:
                    raise Bad((k, show(v)))
            elif k in ("strict", "strip_whitespace", "to_lower", "to_upper", "allow_inf_nan"):
                pass
            else:
                raise Undecided(f"constraint {k}")
        return v

    def validate_union(self, t, v):
        members = t.a[0]
        mode = t.a[1] if len(t.a) > 1 else "smart"
        errs = []
        if isinstance(mode, tuple):
            v0 = conc(v)
            disc = mode[1]
            for m in members:
                if m.k == "model":
                    fm = self.info(m.a[0]).fields.get(disc)
                    if fm is None:
                        continue
                    got = MISSING
                    if isinstance(v0, IDict):
                        got = v0.get(fm.alias or disc, MISSING)
                    elif isinstance(v0, Inst):
                        got = self.attr(v0, disc)
                    if got is not MISSING and self.strictly(fm.term, got):
                        return self.validate(m, v)
            raise Bad(("union_tag",))
        if mode != "smart":
            for m in members:
                try:
                    return self.validate(m, v)
                except Bad as e:
                    errs.extend(e.errs)
            raise Bad(*errs)
        old = self.ex, self.cnt
        best = None
        try:
            for m in members:
                self.ex, self.cnt = 2, None
                try:
                    r = self.validate(m, v)
                except Bad as e:
                    errs.extend(e.errs)
                    continue
                if self.ex == 2 and self.cnt is None:
                    best = (r, 2, None)
                    break
                if best is None:
                    better = True
                elif best[2] is not None and self.cnt is not None and best[2] != self.cnt:
                    better = best[2] < self.cnt
                else:
                    better = best[1] < self.ex
                if better:
                    best = (r, self.ex, self.cnt)
        finally:
            self.ex, self.cnt = old
        if best is None:
            raise Bad(*errs)
        self.floor(best[1])
        if best[2] is not None:
            self.cnt = (self.cnt or 0) + best[2]
        return best[0]

    def validate_nested(self, cls, v):
        v = conc(v)
        if isinstance(v, Inst) and self.is_model(v.cls) and v.cls.is_sub(cls):
            if v.lazy is not None and v.cls.is_sub(cls):
                # a document node: valid by assumption
                h = self.w.hooks.get("pyd:revalidate")
                if h is not None:
                    r = h(v)
                    if r is not w_unbound():
                        return r
            return self.validate_model(v.cls if v.cls.is_sub(cls) else cls, v)
        h = self.w.hooks.get("pyd:nested")
        if h is not None:
            r = h(cls, v)
            if r is not w_unbound():
                return r
        if isinstance(v, Inst) and self.is_model(v.cls):
            if self.is_root(cls):
                return self.validate_model(cls, v)
            raise Bad(("model_type", show(v)))
        init = cls.find("__init__")
        if init is not None and isinstance(v, IDict):
            # a custom __init__ is called during validation
            o = Inst(cls)
            self.w.call(init[1], [o], {k: x for k, x in v.live()})
            return o
        return self.validate_model(cls, v)

    # ------------------------------------------------------------------ instances
    def lazy_get(self, o, name):
        v = o.lazy(o, name)
        if v is not MISSING:
            owner, o.owner = o.owner, None
            o.d.owner, dow = None, o.d.owner
            o.d.set(name, v)
            o.owner = owner
            o.d.owner = dow
        return v

    def attr(self, o, name):
        U = w_unbound()
        i = o.d.idx.get(name)
        if i is not None:
            return o.d.pairs[i][1]
        inf = self.info(o.cls)
        if name in inf.fields:
            if o.lazy is not None:
                v = self.lazy_get(o, name)
                if v is not MISSING:
                    return v
            return U
        if name == "__dict__":
            self.force_fields(o)
            return o.d
        if name in ("model_extra", "__pydantic_extra__"):
            if o.lazy is not None and o.extra is None and inf.config.get("extra") == "allow":
                o.extra = IDict()
                o.extra.owner = o.owner
            return o.extra
        if name in ("model_fields_set", "__pydantic_fields_set__"):
            if o.lazy is not None:
                self.force_fields(o)
                return ISet([k for k, v in o.d.live() if v is not None])
            if o.fset is None:
                o.fset = ISet()
            return o.fset
        if name in ("__pydantic_private__",):
            return o.private
        if o.private is not None and name in o.private:
            return o.private.get(name)
        if isinstance(o.extra, IDict) and name not in METHODS and name in o.extra and o.cls.find(name) is None:
            return o.extra.get(name)
        return U

    def force_fields(self, o):
        if o.lazy is None:
            return
        for n in self.info(o.cls).fields:
            if n not in o.d.idx:
                self.lazy_get(o, n)

    def iter_model(self, o):
        self.force_fields(o)
        out = [(k, v) for k, v in o.d.live()]
        if isinstance(o.extra, IDict):
            out += o.extra.live()
        return iter([tuple(x) for x in out])

    def model_eq(self, a, b):
        if a is b:
            return True
        if a.cls is not b.cls:
            return False
        self.force_fields(a)
        self.force_fields(b)
        for n in self.info(a.cls).fields:
            if not eq(a.d.get(n, MISSING), b.d.get(n, MISSING)):
                return False
        ea, eb = a.extra or IDict(), b.extra or IDict()
        return eq(ea, eb)

    def class_attr(self, c, name):
        U = w_unbound()
        if name in ("model_fields", "__pydantic_fields__", "__fields__"):
            return IDict([(n, FieldV(fm)) for n, fm in self.info(c).fields.items()])
        if name in ("model_config",):
            return IDict(list(self.config(c).items()))
        if name in ("__pydantic_decorators__", "__pydantic_core_schema__", "__pydantic_validator__", "__pydantic_serializer__"):
            return Unk(name)
        if name in ("model_computed_fields", "__pydantic_computed_fields__"):
            return IDict([(n, None) for n in self.info(c).computed])
        if name == "__pydantic_generic_metadata__":
            return IDict([("origin", None), ("args", ()), ("parameters", ())])
        if name == "__signature__":
            return Unk(name)
        if name == "__pydantic_root_model__":
            return self.is_root(c)
        return U

    def field_attr(self, fv, name):
        fm = fv.fm
        if name == "alias":
            return fm.alias
        if name == "serialization_alias":
            return fm.ser_alias
        if name == "validation_alias":
            return fm.val_alias
        if name == "exclude":
            return True if fm.exclude else fm.kw.get("exclude")
        if name == "exclude_if":
            return fm.exclude_if
        if name == "default":
            return ExtV("pydantic_core.PydanticUndefined") if fm.default is MISSING else fm.default
        if name == "default_factory":
            return fm.factory
        if name == "annotation":
            return self.host_ann(fm.ann, fm.cls)
        if name == "is_required":
            return Meth(name, lambda: fm.required)
        if name == "get_default":
            return Meth(name, lambda call_default_factory=False, **k: self.default(fm) if not fm.required else ExtV("pydantic_core.PydanticUndefined"))
        if name == "metadata":
            return list(fm.meta)
        if name == "frozen":
            return fm.frozen or None
        if name in ("description", "title", "examples", "deprecated", "json_schema_extra", "repr", "init", "kw_only", "discriminator", "validate_default", "alias_priority", "init_var"):
            return fm.kw.get(name)
        raise PyRaise(AttributeError(f"'FieldInfo' object has no attribute '{name}'"), self.w.here())

    def host_ann(self, t, cls):
        """FieldInfo.annotation: forward references resolved."""
        if isinstance(t, str):
            return self.host_ann(self.fwd(t, cls.env), cls)
        if isinstance(t, GenT):
            return GenT(t.origin, [self.host_ann(a, cls) if isinstance(a, (str, GenT, UnionT)) and not (isinstance(t.origin, ExtV) and t.origin.name == "Literal") else a for a in t.args])
        if isinstance(t, UnionT):
            return UnionT([self.host_ann(a, cls) for a in t.args])
        return type(None) if t is None else t

    # ------------------------------------------------------------------ methods
    def method(self, o, cls, name):
        """Attribute `name` of BaseModel on an instance (o) or on the class (o None)."""
        U = w_unbound()
        f = getattr(self, "m_" + name.strip("_"), None)
        if f is None or name not in METHODS:
            return U
        if name in CLASSMETHODS:
            return Meth(name, lambda *a, **k: f(cls, *a, **k), cls)
        if o is None:
            return Meth(name, lambda s, *a, **k: f(s, *a, **k), cls)
        return Meth(name, lambda *a, **k: f(o, *a, **k), o)

    def super_method(self, obj, cls, name):
        if isinstance(obj, ClassV):
            return self.method(None, obj, name) if name in CLASSMETHODS else self.method(None, cls, name)
        return self.method(obj, cls, name)

    def m_model_validate(self, cls, obj, *a, **k):
        h = self.w.hooks.get("pyd:model_validate")
        if h is not None:
            r = h(cls, obj)
            if r is not w_unbound():
                return r
        obj = conc(obj)
        try:
            return self.validate_nested(cls, obj)
        except Bad as e:
            raise self.verror(cls, e.errs)

    def m_model_validate_json(self, cls, s, *a, **k):
        s = conc(s)
        if type(s) is str:
            s = self.json_of(cls, s)
        if not hasattr(s, "data") or not type(s).__name__ == "J":
            raise Undecided("model_validate_json")
        old, VInfo.source = VInfo.source, "json"
        try:
            return self.m_model_validate(cls, self.w.std.copy(s.data, True), *a, **k)
        finally:
            VInfo.source = old

    def json_of(self, cls, text):
        """The parsed text; text that is no JSON is a validation error."""
        import json
        try:
            data = json.loads(text)
        except ValueError as e:
            raise self.verror(cls, [("json_invalid", str(e))])
        t = JsonText("json")
        t.data = self.w.std.json_loads(text)
        return t

    def m_parse_obj(self, cls, obj):
        return self.m_model_validate(cls, obj)

    def m_model_construct(self, cls, _fields_set=None, *a, **k):
        i = self.info(cls)
        o = Inst(cls)
        if i.root:
            a = list(a)
            if a:
                _fields_set, k = a[0], {"root": _fields_set, **k}
            elif "root" not in k:
                if _fields_set is None:
                    raise PyRaise(TypeError("model_construct() missing 1 required positional argument: 'root'"), self.w.here())
                _fields_set, k = None, {"root": _fields_set, **k}
        o.fset = ISet()
        for n, fm in i.fields.items():
            for key in (fm.alias, n):
                if key is not None and key in k:
                    o.d.set(n, k.pop(key))
                    o.fset.add(n)
                    break
            else:
                if not fm.required:
                    o.d.set(n, self.default(fm))
        if conc(_fields_set) is not None:
            o.fset = ISet(list(self.w.iterate(_fields_set)))
        o.extra = IDict(list(k.items())) if i.config.get("extra") == "allow" else None
        return o

    def m_model_copy(self, o, *, update=None, deep=False):
        c = self.w.std.copy(o, deep)
        if update is not None:
            for k, v in conc(update).live():
                if k in self.info(o.cls).fields or c.extra is None:
                    c.d.set(k, v)
                else:
                    c.extra.set(k, v)
                if c.fset is not None:
                    c.fset.add(k)
        return c

    def m_copy(self, o):
        return self.w.std.copy(o, False, plain=True)

    def m_deepcopy(self, o, memo=None):
        return self.w.std.copy(o, True, plain=True)

    def m_init(self, o, *a, **k):
        self.init(o, list(a), k)

    def m_setattr(self, o, name, v):
        self.base_setattr(o, self.w.std.need_name(name), v)

    def m_delattr(self, o, name):
        self.w.delattr(o, name)

    def m_iter(self, o):
        return self.iter_model(o)

    def m_eq(self, o, other):
        other = conc(other)
        if not isinstance(other, Inst) or not self.is_model(other.cls):
            return NotImplemented
        return self.model_eq(o, other)

    def m_ne(self, o, other):
        return not truth(self.w.equal(o, other))

    def m_repr(self, o):
        from interp import Text
        return Text("repr")

    m_str = m_repr

    def m_model_post_init(self, o, ctx=None):
        return None

    def m_model_dump(self, o, *a, **k):
        return self.dump(o, k)

    def m_dict(self, o, **k):
        return self.dump(o, k)

    def m_model_dump_json(self, o, *a, **k):
        from interp import Text
        t = JsonText("json")
        t.data = self.dump(o, {**{x: y for x, y in k.items() if x not in ("indent", "ensure_ascii")}, "mode": "json"})
        return t

    def m_model_json_schema(self, cls, *a, **k):
        return Unk("json schema")

    def m_model_rebuild(self, cls, *a, **k):
        return None

    def m_init_subclass(self, cls, **k):
        return None

    def m_pydantic_init_subclass(self, cls, **k):
        return None

    def m_class_getitem(self, cls, k):
        return self.w.std.subscript_type(cls, k)

    def m_get_pydantic_core_schema(self, cls, source, handler):
        return self.w.call(handler, [source], {})

    def serializer_args(self, f, base):
        """Does a serializer function take the trailing info argument?"""
        g = f.f if isinstance(f, BoundV) else f
        k = 1 if isinstance(f, BoundV) else 0
        if isinstance(g, FuncV):
            a = g.node.args
            n = len(a.posonlyargs + a.args) - k - len(g.defaults)
            return n > base
        return False

    def used(self, d, v, k):
        when = d.kw("when_used", "always")
        json = k.get("mode") == "json"
        if when == "always":
            return True
        if when == "unless-none":
            return v is not None
        if when == "json":
            return json
        if when == "json-unless-none":
            return json and v is not None
        raise Undecided(f"when_used={when!r}")

    def dump(self, o, k, plain=False):
        i = self.info(o.cls)
        w = self.w
        if i.model_serializers and not plain:
            name, d, f = i.model_serializers[-1]
            mode = d.kw("mode", "plain")
            if self.used(d, o, k):
                f = self.bound_self(f, o)
                if mode == "wrap":
                    args = [Meth("handler", lambda x, *a: self.dump(x, k, True))]
                else:
                    args = []
                if self.serializer_args(f, len(args)):
                    args.append(Unk("serialization info"))
                return self.dump_value(w.call(f, args, {}), k)
        self.force_fields(o)
        if i.root:
            fm = i.fields["root"]
            return self.dump_field(o, fm, o.d.get("root"), k)
        by = k.get("by_alias")
        by = truth(i.config.get("serialize_by_alias") or False) if by is None else truth(by)
        out = IDict()
        for n, fm in i.fields.items():
            if fm.exclude is True or fm.exclude not in (False, None):
                continue
            v = self.attr(o, n)
            if fm.exclude_if is not None and truth(self.w.call(fm.exclude_if, [v], {})):
                continue
            if truth(k.get("exclude_none") or False) and truth(w.is_(v, None)):
                continue
            if truth(k.get("exclude_unset") or False) and o.fset is not None and n not in o.fset:
                continue
            if truth(k.get("exclude_defaults") or False) and not fm.required and truth(w.equal(v, self.default(fm))):
                continue
            if k.get("include") is not None or k.get("exclude") is not None:
                raise Undecided("include/exclude on serialisation")
            out.set(fm.ser_alias if by and fm.ser_alias is not None else n, self.dump_field(o, fm, v, k))
        if isinstance(o.extra, IDict):
            for kk, v in o.extra.live():
                if truth(k.get("exclude_none") or False) and v is None:
                    continue
                out.set(kk, self.dump_value(v, k))
        for n in i.computed:
            out.set(n, self.dump_value(w.getattr(o, n), k))
        return out

    def bound_self(self, f, o):
        if isinstance(f, Wrapped):
            if f.kind == "staticmethod":
                return f.f
            if f.kind == "classmethod":
                return BoundV(f.f, o.cls)
            f = f.f
        return BoundV(f, o)

    def dump_field(self, o, fm, v, k):
        w = self.w
        if fm.serializers:
            name, d, f = fm.serializers[-1]
            if self.used(d, v, k):
                f = self.bound_self(f, o)
                args = [v]
                if d.kw("mode", "plain") == "wrap":
                    args.append(Meth("handler", lambda x, *a: self.dump_value(x, k)))
                if self.serializer_args(f, len(args)):
                    args.append(Unk("serialization info"))
                return self.dump_value(w.call(f, args, {}), k)
        return self.dump_typed(fm.term, v, k)

    def dump_typed(self, t, v, k):
        w = self.w
        if not has_ser(t):
            return self.dump_value(v, k)
        if t.k == "ser":
            m = t.a[0]
            f = m.kw("func", m.args[0] if m.args else MISSING)
            if self.used(m, v, k):
                args = [v]
                if m.q.endswith("WrapSerializer"):
                    args.append(Meth("handler", lambda x, *a: self.dump_typed(t.a[1], x, k)))
                if self.serializer_args(f, len(args)):
                    args.append(Unk("serialization info"))
                return self.dump_value(w.call(f, args, {}), k)
            return self.dump_typed(t.a[1], v, k)
        if t.k == "con":
            return self.dump_typed(t.a[0], v, k)
        if t.k == "fn":
            return self.dump_typed(t.a[2], v, k)
        if t.k == "custom":
            return self.dump_typed(t.a[1], v, k)
        if t.k == "nullable":
            return None if v is None else self.dump_typed(t.a[0], v, k)
        if t.k == "union":
            for x in t.a[0]:
                if self.strictly(x, v):
                    return self.dump_typed(x, v, k)
            return self.dump_value(v, k)
        if t.k == "list" and isinstance(v, list):
            return [self.dump_typed(t.a[0], x, k) for x in v]
        if t.k == "dict" and isinstance(v, IDict):
            return IDict([(a, self.dump_typed(t.a[1], b, k)) for a, b in v.live()])
        raise Undecided("custom serializer")

    def dump_value(self, v, k):
        if isinstance(v, Inst) and self.is_model(v.cls):
            return self.dump(v, {x: y for x, y in k.items() if x not in ("include", "exclude")})
        if isinstance(v, IDict):
            return IDict([(a, self.dump_value(b, k)) for a, b in v.live()])
        if isinstance(v, list):
            return [self.dump_value(x, k) for x in v]
        if isinstance(v, UrlV) and k.get("mode") == "json":
            return v.s
        return v

    # ------------------------------------------------------------------ assignment
    def setattr(self, o, name, v):
        self.base_setattr(o, name, v)

    def base_setattr(self, o, name, v):
        """BaseModel.__setattr__."""
        w = self.w
        cls = o.cls
        i = self.info(cls)
        h = w.hooks.get("pyd:setattr")
        if h is not None:
            r = h(o, name, v)
            if r is not w_unbound():
                return
        if name.startswith("__"):
            self.raw_setattr(o, name, v)
            return
        if name.startswith("_"):
            if o.private is None:
                o.private = IDict()
            o.private.set(name, v)
            return
        if i.config.get("frozen") is True or name in i.fields and i.fields[name].frozen:
            raise self.verror(cls, [("frozen", name)])
        r = cls.find(name)
        if r is not None and isinstance(r[1], Wrapped) and r[1].kind == "property":
            fs = r[1].extra.get("setter")
            if fs is None:
                raise PyRaise(AttributeError(f"property '{name}' has no setter"), w.here())
            w.call(fs, [o, v], {})
            return
        self.note(o, ("setattr", name))
        if truth(i.config.get("validate_assignment") or False):
            try:
                self.validate_assignment(o, i, name, v)
            except Bad as e:
                raise self.verror(cls, e.errs)
            return
        if name not in i.fields:
            if i.config.get("extra") != "allow":
                raise PyRaise(ValueError(f'"{cls.name}" object has no field "{name}"'), w.here())
            if o.extra is None:
                o.extra = IDict()
            o.extra.set(name, v)
        else:
            self.force_fields(o)
            o.d.set(name, v)
            if o.fset is not None:
                o.fset.add(name)

    def note(self, o, what):
        if o.owner is not None and core._cur:
            self.w.owner_event(o, what)
            if o.owner[0] == "global":
                saved = o.d._save()
                R().undo.append(lambda: o.d._load(saved))

    def validate_assignment(self, o, i, name, v):
        cls = o.cls
        self.force_fields(o)
        target = o
        for nm, f in reversed(i.before):
            fn = self.field_func(f, cls)
            n, _ = self.nparams(fn)
            self.guard(fn, *([o] + ([VInfo(IDict(), None)] if n > 1 else [])))
        if i.wrap:
            raise Undecided(f"wrap validator of {cls.qual} on assignment")
        if name in i.fields:
            data = IDict([(k, x) for k, x in o.d.live() if k != name])
            nv = self.validate_field(cls, i.fields[name], v, data)
            d = IDict(o.d.live())
            d.set(name, nv)
            o.d = d
        else:
            if i.config.get("extra") != "allow":
                raise Bad(("no_such_attribute", name))
            e = o.extra.copy() if o.extra is not None else IDict()
            e.set(name, v)
            o.extra = e
        if o.fset is not None:
            fs = ISet(list(o.fset))
            fs.add(name)
            o.fset = fs
        self.run_after(cls, i, o)

    def raw_setattr(self, o, name, v):
        """object.__setattr__."""
        if name == "__dict__":
            self.note(o, ("setattr", name))
            if not isinstance(v, IDict):
                raise PyRaise(TypeError("__dict__ must be set to a dictionary"), self.w.here())
            o.d = v
            return
        if name in ("__pydantic_extra__", "model_extra"):
            self.note(o, ("setattr", name))
            o.extra = v
            return
        if name == "__pydantic_fields_set__":
            self.note(o, ("setattr", name))
            o.fset = v
            return
        if name == "__pydantic_private__":
            o.private = v
            return
        self.note(o, ("setattr", name))
        self.force_fields(o)
        o.d.set(name, v)

    # ------------------------------------------------------------------ functions of the pydantic module
    def call_ext(self, name, a, kw):
        U = w_unbound()
        if name == "ConfigDict":
            return IDict(list(kw.items()))
        if name in URLS:
            s = a[0] if a else kw.get("url")
            try:
                return self.validate(T("url", name), s)
            except Bad as e:
                raise self.verror(name, e.errs)
        if name == "TypeAdapter":
            return Adapter(self, a[0])
        if name == "PrivateAttr" or name == "Field":
            return U
        if name == "create_model":
            raise Undecided("create_model")
        return U


class Adapter(Proxy):
    __slots__ = ("p", "t")

    def __init__(self, p, t):
        self.p, self.t = p, t

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def validate_python(self, v, **k):
        t = self.p.term_(self.t, None)
        try:
            return self.p.validate(t, v)
        except Bad as e:
            raise self.p.verror(repr(t), e.errs)

    def dump_python(self, v, **k):
        return self.p.dump_value(v, k)


METHODS = {"model_validate", "model_validate_json", "parse_obj", "model_construct", "model_copy", "__copy__", "__deepcopy__", "__init__", "__setattr__",
           "__delattr__", "__iter__", "__eq__", "__ne__", "__repr__", "__str__", "model_post_init", "model_dump", "dict", "model_dump_json",
           "model_json_schema", "model_rebuild", "__init_subclass__", "__pydantic_init_subclass__", "__class_getitem__", "__get_pydantic_core_schema__"}
CLASSMETHODS = {"model_validate", "model_validate_json", "parse_obj", "model_construct", "model_json_schema", "model_rebuild", "__init_subclass__",
                "__pydantic_init_subclass__", "__class_getitem__", "__get_pydantic_core_schema__"}


def _jsontext():
    from interp import Text

    class J(Text):
        __slots__ = ("data",)
    return J


class _Lazy:
    c = None

    def __call__(self, *a):
        if self.c is None:
            self.c = _jsontext()
        return self.c(*a)


JsonText = _Lazy()


def has_ser(t):
    if t.k == "ser":
        return True
    for a in t.a:
        if isinstance(a, T) and has_ser(a):
            return True
        if isinstance(a, (list, tuple)) and any(isinstance(x, T) and has_ser(x) for x in a):
            return True
    return False


def w_unbound():
    from interp import UNBOUND
    return UNBOUND


def rust_regex(p):
    """Language of a Rust-regex `pattern` constraint (search; $ is the end of the text)."""
    q = re.sub(r"(?<!\\)\$", r"\\Z", p)
    return lang.regex(q, 0, "search")
