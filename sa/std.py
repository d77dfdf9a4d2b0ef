"""Built-ins and the standard library, as seen by the abstract interpreter."""
from __future__ import annotations

import ast
import builtins as hb
import collections
import collections.abc as cabc
import contextlib
import fnmatch
import functools
import importlib
import itertools
import math
import operator
import re
import string
import types

import core
import lang
from core import R, IDict, ISet, FSet, IList, IView, OStr, Sym, Der, IntOf, LenOf, SYMS, Unk, Null, PyRaise, Undecided, IdInt, Proxy
from core import conc, force, eq, truth, compare, mk, raw, amb, show, plain, kind, MISSING
from objs import WORLD, ExtV, ExtCall, GenT, UnionT, ClassV, ModV, HMod, FuncV, Wrapped, PydDec, BoundV, Meth, CachedF, SuperV, FieldV, Inst, tname


PATHS = {"normpath", "basename", "dirname", "split", "splitext", "join", "isabs", "relpath", "commonprefix"}
TEXT_FUNCTIONS = {"html": {"escape", "unescape"}, "posixpath": PATHS, "ntpath": PATHS, "os.path": PATHS - {"relpath"},
                  "textwrap": {"dedent", "indent", "shorten", "fill", "wrap"}, "shlex": {"quote", "split"},
                  "unicodedata": {"normalize", "category", "name", "east_asian_width", "combining", "is_normalized"}}
_PATHS = ["a/../b", "a//b", "./a", "/a/", "../a", "a/.", "a.b", "a/b.c"]
TELLING = {"html": ["a&amp;b", "&amp;lt;", "&lt;a&gt;", "<a> & 'b'", "&#65;"], "posixpath": _PATHS, "ntpath": [*_PATHS, "a\\b"], "os.path": _PATHS,
           "textwrap": ["  a\n  b", "a  b\tc", "\n a\n", "word " * 30], "shlex": ["a b", "a 'b c'", "it's"],
           "unicodedata": ["e\u0301", "\u00e9", "\ufb01", "\u2160"],
           "urllib.parse": ["a%20b", "a%2520b", "a b", "a+b", "%41", "a%2Fb", "é", "http://a/b?q#f", "a/../b"]}


class PydValidationError(ValueError):
    pass


PydValidationError.__name__ = "ValidationError"


class PydUserError(TypeError):
    pass


class Pat(Proxy):
    __slots__ = ("p", "flags")

    def __init__(self, p, flags):
        self.p, self.flags = p, flags

    def __eq__(self, o):
        return isinstance(o, Pat) and (o.p, o.flags) == (self.p, self.flags)

    def __hash__(self):
        return hash((self.p, self.flags))

    def __repr__(self):
        return f"re.compile({self.p!r})"


class MatchR(Proxy):
    """A match on a known (or key-bearing) string."""

    __slots__ = ("g0", "groups", "names", "span", "s", "pat")

    def __init__(self, g0, groups, names, span, s, pat):
        self.g0, self.groups, self.names, self.span, self.s, self.pat = g0, groups, names, span, s, pat


class MatchS(Proxy):
    """A match on a symbolic string."""

    __slots__ = ("v", "pat", "mode")

    def __init__(self, v, pat, mode):
        self.v, self.pat, self.mode = v, pat, mode


NT_CACHE = {}
EXCS = {n: getattr(hb, n) for n in dir(hb) if isinstance(getattr(hb, n), type) and issubclass(getattr(hb, n), BaseException)}


def host_table(x):
    """A translation table as a host dict."""
    x = conc(x)
    if isinstance(x, IDict):
        return {conc(k): conc(v) for k, v in x.live()}
    return x


class Std:
    def __init__(self, world):
        self.w = world
        self.builtins = {}
        self._mk_builtins()
        self.mods = {}

    @property
    def UNBOUND(self):
        from interp import UNBOUND
        return UNBOUND

    # ------------------------------------------------------------------ modules
    def module(self, name):
        from interp import HOST_MODULES, NULL_MODULES
        if name in NULL_MODULES:
            return Null(name)
        if name in HOST_MODULES:
            return HMod(name)
        return ExtV(name)

    def attr(self, m, name):
        if isinstance(m, Null):
            return Null(f"{m.path}.{name}")
        if isinstance(m, HMod):
            return self.hmod_attr(m.name, name)
        if isinstance(m, ExtV):
            return self.ext(f"{m.q}.{name}")
        raise Undecided(f"attribute of {m!r}")

    def ext(self, q):
        alias = {"pydantic.main.BaseModel": "pydantic.BaseModel", "pydantic.fields.Field": "pydantic.Field", "pydantic.root_model.RootModel": "pydantic.RootModel",
                 "pydantic.functional_validators.model_validator": "pydantic.model_validator", "pydantic.functional_validators.field_validator": "pydantic.field_validator",
                 "pydantic.functional_serializers.model_serializer": "pydantic.model_serializer", "pydantic.functional_serializers.field_serializer": "pydantic.field_serializer",
                 "pydantic.networks.AnyUrl": "pydantic.AnyUrl", "pydantic.networks.HttpUrl": "pydantic.HttpUrl", "pydantic.config.ConfigDict": "pydantic.ConfigDict",
                 "pydantic.functional_validators.AfterValidator": "pydantic.AfterValidator", "pydantic.functional_validators.BeforeValidator": "pydantic.BeforeValidator",
                 "typing_extensions.Annotated": "typing.Annotated", "typing_extensions.Literal": "typing.Literal", "typing_extensions.Self": "typing.Self"}
        q = alias.get(q, q)
        if q in ("pydantic.ValidationError", "pydantic_core.ValidationError", "pydantic_core._pydantic_core.ValidationError"):
            return PydValidationError
        if q in ("pydantic_core.PydanticCustomError", "pydantic_core.PydanticKnownError"):
            return PydValidationError
        if q.startswith("typing_extensions."):
            return self.hmod_attr("typing", q.split(".", 1)[1])
        if q.startswith("structlog") or q.startswith("loguru"):
            return Null(q)
        return ExtV(q)

    def exc_type(self, q):
        if "ValidationError" in q:
            return PydValidationError
        return ExtV(q)

    def hmod_attr(self, mod, name):
        w = self.w
        key = (mod, name)
        if mod == "typing":
            if name == "TYPE_CHECKING":
                return False
            if name == "get_args":
                return Meth("get_args", self.get_args)
            if name == "get_origin":
                return Meth("get_origin", self.get_origin)
            if name == "cast":
                return Meth("cast", lambda t, v: v)
            if name in ("overload", "final", "runtime_checkable", "no_type_check", "override"):
                return Meth(name, lambda f: f)
            if name == "TypeVar":
                return Meth("TypeVar", lambda n, *a, **k: ExtCall("typing.TypeVar", (n,) + a, k))
            if name == "NewType":
                return Meth("NewType", lambda n, t: t)
            if name in ("List", "Dict", "Set", "Tuple", "FrozenSet", "Type"):
                return {"List": list, "Dict": dict, "Set": set, "Tuple": tuple, "FrozenSet": frozenset, "Type": type}[name]
            if hasattr(cabc, name):
                return getattr(cabc, name)
            if name == "get_type_hints":
                return Meth(name, lambda c, **k: IDict([(x, w.annotation(c, x)) for x in c.ann]))
            return ExtV(f"typing.{name}")
        if mod == "re":
            if name in ("compile", "match", "fullmatch", "search", "sub", "subn", "split", "findall", "finditer", "escape"):
                return Meth("re." + name, getattr(self, "re_" + name))
            return getattr(re, name)
        if mod == "fnmatch":
            if name in ("fnmatch", "fnmatchcase"):
                return Meth(name, lambda s, p: self.strcall(lambda a, b: getattr(fnmatch, name)(a, b), s, p))
            if name == "translate":
                return Meth(name, lambda p: fnmatch.translate(self.need_str(p)))
            if name == "filter":
                return Meth(name, lambda xs, p: [x for x in w.iterate(xs) if self.strcall(lambda a, b: fnmatch.fnmatch(a, b), x, p)])
        if mod == "functools":
            if name == "partial":
                return Meth("partial", lambda f, *a, **k: Meth("partial", lambda *b, **m: w.call(f, list(a) + list(b), {**k, **m}), f))
            if name in ("lru_cache", "cache"):
                def deco(*a, **k):
                    if a and (isinstance(a[0], Proxy)) and not isinstance(a[0], (SYMS)):
                        return CachedF(a[0], getattr(a[0], "qual", "?"))
                    return Meth("lru_cache", lambda f: CachedF(f, getattr(f, "qual", "?")))
                return Meth(name, deco)
            if name == "cached_property":
                return Meth(name, lambda f: Wrapped("cached_property", f))
            if name == "wraps":
                return Meth(name, lambda f, **k: Meth("wraps", lambda g: g))
            if name == "reduce":
                def red(f, xs, *init):
                    it = w.iterate(xs)
                    if init:
                        acc = init[0]
                    else:
                        acc = next(it)
                    for x in it:
                        acc = w.call(f, [acc, x], {})
                    return acc
                return Meth(name, red)
            if name == "singledispatch":
                return Meth(name, self.singledispatch)
            if name in ("total_ordering",):
                return Meth(name, lambda c: c)
            if name == "cmp_to_key":
                return Meth(name, functools.cmp_to_key)
        if mod == "itertools":
            if name == "chain":
                m = Meth("chain", lambda *xs: self.chain(xs))
                return ChainObj(self)
            if hasattr(itertools, name):
                f = getattr(itertools, name)

                def itf(*a, **k):
                    a2 = [self.hostiter(x) if self.iterish(x) else x for x in a]
                    if name in ("groupby",) and len(a2) > 1 or "key" in k:
                        pass
                    if name == "count":
                        return f(*a, **k)
                    if name == "repeat":
                        return f(*a, **k)
                    return f(*a2, **k)
                return Meth(f"itertools.{name}", itf)
        if mod == "operator":
            if name == "attrgetter":
                def ag(*names):
                    def get(o):
                        out = []
                        for n in names:
                            v = o
                            for p in n.split("."):
                                v = w.getattr(v, p)
                            out.append(v)
                        return out[0] if len(out) == 1 else tuple(out)
                    return Meth("attrgetter", get)
                return Meth(name, ag)
            if name == "itemgetter":
                return Meth(name, lambda *ks: Meth("itemgetter", lambda o: w.getitem(o, ks[0]) if len(ks) == 1 else tuple(w.getitem(o, k) for k in ks)))
            if name == "methodcaller":
                return Meth(name, lambda n, *a, **k: Meth("methodcaller", lambda o: w.call(w.getattr(o, n), list(a), k)))
            m = {"eq": ast.Eq, "ne": ast.NotEq, "is_": ast.Is, "is_not": ast.IsNot, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE}
            if name in m:
                return Meth(name, lambda a, b: w.cmp(m[name](), a, b))
            if name == "contains":
                return Meth(name, lambda a, b: w.contains(a, b))
            if name == "not_":
                return Meth(name, lambda a: not truth(a))
            if name == "truth":
                return Meth(name, lambda a: truth(a))
            if name == "getitem":
                return Meth(name, w.getitem)
            if name == "setitem":
                return Meth(name, w.setitem)
            b = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "mod": ast.Mod, "or_": ast.BitOr, "and_": ast.BitAnd, "concat": ast.Add}
            if name in b:
                return Meth(name, lambda x, y: w.binop(b[name](), x, y))
        if mod == "collections":
            if name == "defaultdict":
                return Meth(name, lambda f=None, *a, **k: self.mkdict(a, k, factory=None if f is None else (lambda: w.call(f, [], {}))), "defaultdict")
            if name == "OrderedDict":
                return dict
            if name == "deque":
                return collections.deque
            if name == "Counter":
                return Meth(name, self.counter)
            if name == "namedtuple":
                def nt(n, fields, **k):
                    fl = fields.replace(",", " ").split() if isinstance(fields, str) else list(w.iterate(fields))
                    return collections.namedtuple(n, fl, defaults=k.get("defaults"))
                return Meth(name, nt)
            if name == "ChainMap":
                def cm(*ms):
                    d = IDict()
                    for m in reversed(ms):
                        self.dict_update(d, m)
                    return d
                return Meth(name, cm)
            if name == "abc":
                return HMod("collections.abc")
            if name == "UserDict":
                return ExtV("collections.UserDict")
        if mod == "collections.abc":
            return getattr(cabc, name)
        if mod == "contextlib":
            if name == "suppress":
                return Meth(name, lambda *ts: Suppress(self.w, ts))
            if name == "contextmanager":
                return Meth(name, lambda f: Meth("contextmanager", lambda *a, **k: GenCM(self.w, self.w.call(f, list(a), k))))
            if name == "nullcontext":
                return Meth(name, lambda v=None: contextlib.nullcontext(v))
            return ExtV(f"contextlib.{name}")
        if mod == "copy":
            if name in ("copy", "deepcopy"):
                return Meth("copy." + name, lambda v, *a: self.copy(v, name == "deepcopy"))
        if mod == "types":
            if name == "MappingProxyType":
                return Meth(name, lambda d: d)
            if name == "SimpleNamespace":
                def sn(**k):
                    o = Inst(self.ns_class())
                    for a, b in k.items():
                        o.d.set(a, b)
                    return o
                return Meth(name, sn)
            return getattr(types, name)
        if mod == "enum":
            if name == "auto":
                return Meth("auto", lambda: ExtCall("enum.auto", (), {}))
            if name == "unique":
                return Meth("unique", lambda c: c)
            return ExtV(f"enum.{name}")
        if mod == "abc":
            if name == "abstractmethod":
                return Meth(name, lambda f: f)
            return ExtV(f"abc.{name}")
        if mod == "dataclasses":
            return ExtV(f"dataclasses.{name}") if name != "dataclass" else Meth("dataclass", self.dataclass)
        if mod == "urllib" and name == "parse":
            return HMod("urllib.parse")
        if mod in ("string", "math"):
            v = getattr(__import__(mod), name)
            if callable(v):
                return Meth(f"{mod}.{name}", lambda *a, **k: v(*[core.concretize(x) if isinstance(x, SYMS) else x for x in a], **k))
            return v
        if mod == "urllib.parse":
            import urllib.parse as up
            if hasattr(up, name):
                f = getattr(up, name)
                if name in ("quote", "unquote", "quote_plus", "unquote_plus", "urldefrag", "urlparse", "urlsplit", "urljoin"):
                    def upf(*a, **k):
                        if any(isinstance(x, SYMS) for x in a):
                            a = [core.concretize(x) if isinstance(x, SYMS) else x for x in a]
                        if any(isinstance(x, Unk) for x in a):
                            return Unk(name)
                        if name in ("urldefrag", "urlparse", "urlsplit"):
                            fields = {"urldefrag": "url fragment", "urlparse": "scheme netloc path params query fragment", "urlsplit": "scheme netloc path query fragment"}[name]
                            t = self.strcall(lambda *b: tuple(f(*b)), *a)
                            return collections.namedtuple(name, fields.split())(*t)
                        return self.strcall(lambda *b: f(*b, **k), *a)
                    return Meth(name, upf)
        if mod == "json" and name in ("dumps", "loads", "dump", "load"):
            f = {"dumps": self.json_dumps, "loads": self.json_loads}.get(name)
            return Meth(f"json.{name}", f or (lambda *a, **k: Unk(f"json.{name}")))
        if mod == "os" and name == "path":
            return HMod("os.path")
        if mod in TEXT_FUNCTIONS and name in TEXT_FUNCTIONS[mod]:
            return Meth(f"{mod}.{name}", self.text_function(mod, name))
        if mod == "textwrap":
            return Meth(name, lambda *a, **k: Unk("text"))
        if mod == "keyword":
            import keyword
            f = getattr(keyword, name)
            if callable(f):
                return Meth(name, lambda s: self.strcall(f, s))
            return f
        if mod == "builtins":
            v = self.builtin(name)
            if v is not self.UNBOUND:
                return v
        if mod == "sys":
            if name in ("maxsize", "version_info"):
                import sys
                return getattr(sys, name)
            if name == "intern":
                return Meth(name, lambda s: s)
            return ExtV(f"sys.{name}")
        if mod == "numbers":
            import numbers
            return getattr(numbers, name)
        if mod == "threading":
            if name in ("Lock", "RLock"):
                return Meth(name, lambda: Null("threading.lock"))
            return ExtV(f"threading.{name}")
        if mod == "inspect":
            if name == "isclass":
                return Meth(name, lambda o: isinstance(conc(o), (ClassV, type)))
            if name in ("isfunction", "ismethod"):
                return Meth(name, lambda o: isinstance(conc(o), FuncV if name == "isfunction" else BoundV))
        if mod in ("html", "shlex", "difflib", "base64", "binascii", "struct", "secrets", "ntpath", "posixpath", "os.path"):
            return Meth(f"{mod}.{name}", lambda *a, **k: Unk(f"{mod}.{name}"))
        if mod == "bisect" or mod == "heapq" or mod == "unicodedata" or mod == "hashlib":
            return Meth(f"{mod}.{name}", lambda *a, **k: Unk(f"{mod}.{name}"))
        return ExtV(f"{mod}.{name}")

    # ------------------------------------------------------------------ builtins
    def builtin(self, name):
        return self.builtins.get(name, self.UNBOUND)

    def _mk_builtins(self):
        w = self.w
        B = self.builtins
        B.update(EXCS)
        for t in (str, int, float, bool, list, tuple, dict, set, frozenset, type, object, bytes, complex, range, slice, bytearray):
            B[t.__name__] = t
        for n in ("property", "classmethod", "staticmethod"):
            B[n] = Meth(n, (lambda kind: lambda f=None, *a: Wrapped(kind, f, {"setter": a[0]} if a else None))(n))
        B["super"] = ExtV("builtins.super")
        B["NotImplemented"], B["Ellipsis"], B["__debug__"] = NotImplemented, Ellipsis, True
        B["True"], B["False"], B["None"] = True, False, None
        B["__name__"] = "module"

        def m(name):
            def d(f):
                B[name] = Meth(name, f)
                return f
            return d

        m("len")(lambda v: w.len_(v))
        m("isinstance")(lambda v, t: w.isinstance_(v, t))
        m("issubclass")(self.issubclass)
        m("callable")(self.callable_)
        m("id")(self.id_)
        m("hash")(lambda v: w.hash_(v))
        m("repr")(self.repr_)
        m("ascii")(self.repr_)
        m("print")(lambda *a, **k: None)
        m("iter")(self.iter_)
        m("next")(self.next_)
        m("enumerate")(lambda xs, start=0: enumerate(w.iterate(xs), start))
        m("zip")(self.zip_)
        m("map")(lambda f, *xs: self.map_(f, xs))
        m("filter")(lambda f, xs: (x for x in w.iterate(xs) if truth(x if f is None else w.call(f, [x], {}))))
        m("any")(lambda xs: self.any_(xs))
        m("all")(lambda xs: self.all_(xs))
        m("sorted")(lambda xs, key=None, reverse=False: self.sorted_(xs, key, reverse))
        m("reversed")(self.reversed_)
        m("min")(lambda *a, **k: self.minmax(min, a, k))
        m("max")(lambda *a, **k: self.minmax(max, a, k))
        m("sum")(self.sum_)
        m("abs")(lambda v: abs(self.cz(v)))
        m("round")(lambda v, *a: round(self.cz(v), *a))
        m("divmod")(lambda a, b: divmod(self.cz(a), self.cz(b)))
        m("pow")(lambda *a: pow(*[self.cz(x) for x in a]))
        m("ord")(lambda v: ord(self.cz(v)))
        m("chr")(lambda v: chr(self.cz(v)))
        m("bin")(lambda v: bin(self.cz(v)))
        m("hex")(lambda v: hex(self.cz(v)))
        m("format")(lambda v, spec="": w.fmt(v, -1, spec))
        m("getattr")(self.getattr_b)
        m("setattr")(lambda o, n, v: w.setattr(o, self.need_name(n), v))
        m("delattr")(lambda o, n: w.delattr(o, self.need_name(n)))
        m("hasattr")(self.hasattr_b)
        m("vars")(lambda o: w.getattr(o, "__dict__"))
        m("dir")(lambda o=None: self.dir_(o))
        m("input")(lambda *a: Unk("input"))
        m("globals")(lambda: Unk("globals"))
        m("locals")(lambda: Unk("locals"))
        B["open"] = ExtV("builtins.open")
        B["exec"] = ExtV("builtins.exec")
        B["eval"] = ExtV("builtins.eval")
        B["compile"] = ExtV("builtins.compile")
        B["__import__"] = Meth("__import__", lambda n, *a: w.import_(n))

    def cz(self, v):
        v = conc(v)
        return core.concretize(v) if isinstance(v, (SYMS, OStr)) else v

    def need_name(self, n):
        n = force(n)
        if isinstance(n, OStr):
            return core.concretize_keys(n)
        if isinstance(n, SYMS):
            n = core.concretize(n)
        return n

    def need_str(self, s):
        s = conc(s)
        if isinstance(s, str):
            return s
        if isinstance(s, (OStr, SYMS)):
            return core.concretize(s)
        raise TypeError("expected string")

    def id_(self, v):
        v = force(v)
        if isinstance(v, Sym):
            v = conc(v)
        if isinstance(v, (str, int, float, bool)) or v is None:
            try:
                return IdInt(hash(("id", type(v).__name__, v)))
            except TypeError:
                pass
        return self.ident(v)

    def ident(self, v):
        if core._cur:
            R().keep.append(v)
        ip = self.w.idpath
        if ip is not None:
            # a later document may live at the addresses of an earlier one
            o = getattr(v, "owner", None)
            if isinstance(o, tuple) and len(o) == 2 and o[0] in ip:
                return IdInt(hash(("addr", type(v).__name__, str(o[1]).replace("spec" + o[0][3:], "spec", 1))))
        return IdInt(id(v))

    def callable_(self, v):
        v = conc(v)
        if isinstance(v, Inst):
            return self.w.typeattr(v.cls, "__call__") is not None
        if isinstance(v, (FuncV, BoundV, Meth, ClassV, CachedF, Null, ExtV, GenT)):
            return True
        if isinstance(v, Unk):
            return core.unk_bool("callable")
        if isinstance(v, Proxy):
            return False
        return callable(v)

    def getattr_b(self, o, n, *d):
        w = self.w
        n = force(n)
        if isinstance(n, SYMS) or isinstance(n, OStr):
            o2 = conc(o)
            names = self.attr_names(o2)
            for x in names:
                if eq(n, x):
                    return w.getattr(o2, x)
            if isinstance(n, SYMS):
                n = core.concretize(n)
            else:
                if d:
                    return d[0]
                raise PyRaise(AttributeError(f"no attribute"), w.here())
        if not isinstance(n, str):
            raise TypeError("attribute name must be string")
        if d:
            return w.getattr(o, n, d[0])
        return w.getattr(o, n)

    def attr_names(self, o):
        w = self.w
        out = []
        if isinstance(o, Inst):
            if w.pyd.is_model(o.cls):
                out += list(w.pyd.info(o.cls).fields)
                if o.extra is not None:
                    out += [k for k in o.extra if isinstance(k, str)]
                out += ["model_fields", "model_extra", "model_config", "model_fields_set", "model_dump", "model_validate", "model_copy", "copy", "dict", "json", "schema", "validate", "construct", "fields"]
            else:
                out += [k for k in o.d if isinstance(k, str)]
            for c in o.cls.mro:
                if isinstance(c, ClassV):
                    out += list(c.ns)
        elif isinstance(o, ClassV):
            for c in o.mro:
                if isinstance(c, ClassV):
                    out += list(c.ns)
        elif isinstance(o, ModV):
            out += list(o.ns)
        return list(dict.fromkeys(out))

    def hasattr_b(self, o, n):
        marker = object()
        o = conc(o)
        if isinstance(o, Unk):
            return core.unk_bool("hasattr of an unknown value")
        return self.getattr_b(o, n, marker) is not marker

    def dir_(self, o):
        return sorted(self.attr_names(conc(o)))

    def issubclass(self, a, b):
        a, b = conc(a), conc(b)
        w = self.w
        if isinstance(b, tuple):
            return any(self.issubclass(a, x) for x in b)
        if isinstance(b, UnionT):
            return any(self.issubclass(a, x) for x in b.args)
        if isinstance(a, Unk) or isinstance(b, Unk):
            return core.unk_bool("issubclass")
        if not isinstance(a, (type, ClassV, ExtV)):
            raise TypeError("issubclass() arg 1 must be a class")
        if isinstance(b, GenT) or not isinstance(b, (type, ClassV, ExtV)):
            raise TypeError("issubclass() arg 2 must be a class, a tuple of classes, or a union")
        if b is object:
            return True
        if isinstance(a, ClassV):
            if a.is_sub(b):
                return True
            if isinstance(b, type):
                if any(isinstance(c, type) and issubclass(c, b) for c in a.mro):
                    return True
                return self.abc_hook(a, b)
            return False
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        if isinstance(a, ExtV):
            return a == b
        return False

    def abc_hook(self, cls, b):
        need = {cabc.Iterable: ["__iter__"], cabc.Sized: ["__len__"], cabc.Container: ["__contains__"], cabc.Callable: ["__call__"],
                cabc.Iterator: ["__iter__", "__next__"], cabc.Collection: ["__len__", "__iter__", "__contains__"], cabc.Reversible: ["__iter__", "__reversed__"]}
        if b is cabc.Hashable:
            try:
                self.w.hash_check(Inst(cls))
                return True
            except PyRaise:
                return False
        if b in need:
            ok = all(cls.find(n) is not None for n in need[b])
            if not ok and b is cabc.Iterable and self.w.pyd.is_model(cls):
                return True
            return ok
        return False

    def isinst(self, v, t):
        """isinstance for a non-symbolic value and a single type."""
        w = self.w
        if t is None:
            t = type(None)
        if t is object:
            return True
        if isinstance(t, ExtV):
            if t.q in ("typing.Any",):
                raise TypeError("typing.Any cannot be used with isinstance()")
            if isinstance(v, Inst):
                return v.cls.is_sub(t)
            if isinstance(v, FieldV):
                return t.name == "FieldInfo"
            if isinstance(v, UrlV):
                return t.q in ("pydantic.AnyUrl", "pydantic_core.Url") or t.q == v.t
            if isinstance(v, ClassV) and t.name == "ModelMetaclass":
                return w.pyd.is_model(v)
            return False
        if isinstance(t, ClassV):
            if isinstance(v, Inst):
                if v.cls.is_sub(t):
                    return True
                if t.cache.get("runtime_protocol") or any(isinstance(c, ExtV) and c.q == "typing.Protocol" for c in t.bases):
                    names = [n for n in t.ns if isinstance(t.ns[n], FuncV)]
                    return bool(names) and all(v.cls.find(n) is not None for n in names)
                return False
            c = getattr(type(v), "_classv", None)
            return c is not None and c.is_sub(t)
        if not isinstance(t, type):
            if isinstance(t, Meth) and t.self_ == "defaultdict":
                return isinstance(v, IDict) and v.factory is not None
            raise TypeError("isinstance() arg 2 must be a type, a tuple of types, or a union")
        if isinstance(v, Inst):
            if any(isinstance(c, type) and issubclass(c, t) for c in v.cls.mro):
                return True
            if self.is_enum(v):
                mx = self.enum_mixin(v.cls)
                if mx is not None and issubclass(mx, t):
                    return True
            return self.abc_hook(v.cls, t)
        if isinstance(v, IView):
            return issubclass({"keys": cabc.KeysView, "items": cabc.ItemsView, "values": cabc.ValuesView}[v.kind], t)
        if isinstance(v, (ClassV,)):
            return t is type
        if isinstance(v, Meth):
            return t in (cabc.Callable, types.BuiltinFunctionType)
        ty = w.type_(v)
        if isinstance(ty, type):
            return issubclass(ty, t)
        if isinstance(ty, ClassV):
            return self.issubclass(ty, t)
        return False

    def iter_(self, xs, *sentinel):
        if sentinel:
            def gen():
                while True:
                    v = self.w.call(xs, [], {})
                    if eq(v, sentinel[0]):
                        return
                    yield v
            return gen()
        return self.w.iterate(xs)

    def next_(self, it, *d):
        if isinstance(it, Inst):
            n = self.w.typeattr(it.cls, "__next__")
            try:
                return self.w.call(n, [it], {})
            except PyRaise as e:
                if isinstance(e.exc, StopIteration) and d:
                    return d[0]
                raise
        try:
            return next(it)
        except StopIteration:
            if d:
                return d[0]
            raise PyRaise(StopIteration(), self.w.here())

    def hostiter(self, v):
        return self.w.iterate(v)

    def iterish(self, v):
        v = force(v)
        return isinstance(v, (list, tuple, IDict, ISet, range, types.GeneratorType)) or (isinstance(v, Inst)) or hasattr(v, "__next__")

    def zip_(self, *xs, strict=False):
        return zip(*[self.w.iterate(x) for x in xs])

    def map_(self, f, xs):
        its = [self.w.iterate(x) for x in xs]
        return (self.w.call(f, list(t), {}) for t in zip(*its))

    def any_(self, xs):
        it = self.w.iterate(xs)
        for x in it:
            if truth(x):
                return True
        return False

    def all_(self, xs):
        for x in self.w.iterate(xs):
            if not truth(x):
                return False
        return True

    def sorted_(self, xs, key, reverse):
        items = list(self.w.iterate(xs))
        ks = [x if key is None else self.w.call(key, [x], {}) for x in items]
        if any(isinstance(k, Unk) for k in ks):
            return items
        order = sorted(range(len(items)), key=functools.cmp_to_key(lambda i, j: self.cmp3(ks[i], ks[j])), reverse=truth(reverse))
        return [items[i] for i in order]

    def cmp3(self, a, b):
        if self.w.order("<", a, b):
            return -1
        if self.w.order("<", b, a):
            return 1
        return 0

    def reversed_(self, v):
        v = conc(v)
        if isinstance(v, Inst):
            f = self.w.typeattr(v.cls, "__reversed__")
            if f is not None:
                return self.w.iterate(self.w.call(f, [v], {}))
        return iter(list(self.w.iterate(v))[::-1])

    def minmax(self, f, a, k):
        key = k.get("key")
        xs = list(self.w.iterate(a[0])) if len(a) == 1 else list(a)
        if not xs:
            if "default" in k:
                return k["default"]
            raise ValueError(f"{f.__name__}() arg is an empty sequence")
        best = xs[0]
        bk = best if key is None else self.w.call(key, [best], {})
        for x in xs[1:]:
            kx = x if key is None else self.w.call(key, [x], {})
            if self.w.order("<" if f is min else ">", kx, bk):
                best, bk = x, kx
        return best

    def sum_(self, xs, start=0):
        acc = start
        for x in self.w.iterate(xs):
            acc = self.w.binop(ast.Add(), acc, x)
        return acc

    def chain(self, xs):
        for x in xs:
            yield from self.w.iterate(x)

    # ------------------------------------------------------------------ text
    def str_(self, v):
        from interp import Text
        v = force(v)
        if isinstance(v, (str, OStr, Der)):
            return v
        if isinstance(v, Sym):
            alts = R().dom[v.name]
            if all(a[0] == "str" for a in alts):
                return v
            return Text("text of a value")
        if v is None or isinstance(v, (bool, int, float)):
            return str(v)
        if isinstance(v, Inst):
            f = self.w.typeattr(v.cls, "__str__")
            if f is not None:
                return self.w.call(f, [v], {})
            if self.is_enum(v):
                if self.enum_mixin(v.cls) is str and any(isinstance(c, ExtV) and c.q == "enum.StrEnum" for c in v.cls.mro):
                    return v.d.get("value")
                return f"{v.cls.name}.{v.d.get('name')}"
            return Text(f"text of {v.cls.name}")
        if isinstance(v, BaseException):
            try:
                if len(v.args) == 1:
                    x = conc(v.args[0])
                    if isinstance(x, (str, OStr, Text)):
                        return x
            except Exception:
                pass
            return Text("exception text")
        if isinstance(v, type):
            return str(v)
        if isinstance(v, list) and all(isinstance(x, (str, int)) for x in v):
            return str(v)
        return Text("text of a value")

    def repr_(self, v):
        from interp import Text
        v = force(v)
        if v is None or isinstance(v, (bool, int, float, str)):
            return repr(v)
        if isinstance(v, OStr):
            return mk("'" + raw(v) + "'")
        return Text("repr")

    def str_concat(self, a, b):
        from interp import Text
        a, b = force(a), force(b)
        if isinstance(a, Unk) or isinstance(b, Unk):
            return self.w.concat_text([a, b])
        if not isinstance(a, SYMS) and not isinstance(b, SYMS):
            return mk(raw(a) + raw(b))
        for x in (a, b):
            if isinstance(x, Sym) and not all(y[0] == "str" for y in R().dom[x.name]):
                if kind(x) != "str":
                    raise TypeError("can only concatenate str")
            if isinstance(x, IntOf):
                raise TypeError("can only concatenate str")
        if isinstance(a, SYMS) and isinstance(b, str):
            if b == "":
                return a
            return Der(a, f"…+{b!r}", lambda d: right_quotient(d, b), lambda s: s + b)
        if isinstance(b, SYMS) and isinstance(a, str):
            if a == "":
                return b
            return Der(b, f"{a!r}+…", lambda d: left_quotient(d, a), lambda s: a + s)
        return Text("text")

    def substr(self, c, x):
        c, x = conc(c), conc(x)
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, (str, OStr)) and isinstance(x, (str, OStr)):
            return bool(amb(lambda a, b: b in a, (c, x)))
        if isinstance(c, SYMS) and isinstance(x, str):
            return core.ask_lang(c, lang.contains(x), f"contains {x!r}")
        if isinstance(x, SYMS) and isinstance(c, str):
            subs = {c[i:j] for i in range(len(c) + 1) for j in range(i, len(c) + 1)} if len(c) <= 64 else None
            if subs is None:
                raise Undecided("substring test in a long text")
            return core.ask_lang(x, lang.words(sorted(subs)), f"in {c!r}")
        return core.concretize(x) in core.concretize(c)

    def text_function(self, mod, name):
        """A pure function of the standard library from text to text: applied to representative
        strings, among them ones the function is known to change."""
        fn = getattr(importlib.import_module(mod), name)

        def call(*a, **k):
            a = [conc(x) for x in a]
            k = {n: conc(x) for n, x in k.items()}
            if any(isinstance(x, Unk) for x in [*a, *k.values()]):
                return Unk(name)
            k = {n: core.concretize(x, TELLING[mod]) if isinstance(x, SYMS) else x for n, x in k.items()}
            a = [core.concretize(x, TELLING[mod]) if isinstance(x, SYMS) else x for x in a]
            if not all(isinstance(x, (str, int, OStr)) or x is None for x in [*a, *k.values()]):
                raise TypeError(f"{mod}.{name}(): expected text")
            names = list(k)
            r = self.strcall(lambda *b: (lambda r: tuple(r) if isinstance(r, list) else r)(fn(*b[:len(a)], **dict(zip(names, b[len(a):])))), *a, *k.values())
            return list(r) if isinstance(r, tuple) and mod in ("shlex", "textwrap") else r
        return call

    def strcall(self, fn, *a):
        a = [conc(x) for x in a]
        if any(isinstance(x, Unk) for x in a):
            return Unk("text")
        if any(isinstance(x, SYMS) for x in a):
            a = [core.concretize(x) if isinstance(x, SYMS) else x for x in a]
        if any(isinstance(x, OStr) for x in a):
            return amb(fn, a)
        return fn(*a)

    def str_getitem(self, s, k):
        s = conc(s)
        if isinstance(k, slice):
            st, sp, step = conc(k.start), conc(k.stop), conc(k.step)
            st, sp = [core.concretize(x) if isinstance(x, SYMS) else x for x in (st, sp)]
            if isinstance(s, str):
                return s[st:sp:step]
            if isinstance(s, OStr):
                return self.ostr_slice(s, st, sp, step)
            if isinstance(s, SYMS) and step in (None, 1):
                if sp is None and (st is None or st >= 0):
                    n = st or 0
                    if n == 0:
                        return s
                    if n <= 40:
                        return Der(s, f"[{n}:]", lambda d: lang.drop_preimage(d, n), lambda t: t[n:])
                if st in (None, 0) and sp is not None and 0 <= sp <= 40:
                    return Der(s, f"[:{sp}]", lambda d: lang.take_preimage(d, sp), lambda t: t[:sp])
                if st in (None, 0) and sp is not None and -40 <= sp < 0:
                    return Der(s, f"[:{sp}]", lambda d: cut_preimage(d, -sp), lambda t: t[:sp])
                if sp is None and st is not None and -40 <= st < 0:
                    return Der(s, f"[{st}:]", lambda d: tail_preimage(d, -st), lambda t: t[st:])
                if st is not None and sp is not None and 0 <= st <= sp <= 40:
                    return Der(s, f"[{st}:{sp}]", lambda d: lang.drop_preimage(lang.take_preimage(d, sp - st), st), lambda t: t[st:sp])
            s = core.concretize(s)
            return s[st:sp:step]
        k = conc(k)
        if isinstance(k, SYMS):
            k = core.concretize(k)
        if not isinstance(k, int):
            raise PyRaise(TypeError("string indices must be integers"), self.w.here())
        if isinstance(s, OStr):
            r = raw(s)
            if k >= 0:
                if k < len(r) and not any(core.is_key(c) for c in r[:k]):
                    if core.is_key(r[k]):
                        return self.first_char(s, r[k])
                    return r[k]
            else:
                if -k <= len(r) and not any(core.is_key(c) for c in r[k:]):
                    return r[k]
            return self.w.hostcall(operator.getitem, core.concretize_keys(s), k)
        if isinstance(s, SYMS):
            if kind(s) != "str":
                raise PyRaise(TypeError("not subscriptable"), self.w.here())
            need = k + 1 if k >= 0 else -k
            if not core.ask_len(s, ">=", need):
                raise PyRaise(IndexError("string index out of range"), self.w.here())
            if 0 <= k <= 40:
                return Der(s, f"[{k}]", lambda d: lang.drop_preimage(lang.take_preimage(d, 1), k), lambda t: t[k])
            if k == -1:
                return Der(s, "[-1]", lambda d: tail_preimage(d, 1), lambda t: t[-1])
            s = core.concretize(s)
        return self.w.hostcall(operator.getitem, s, k)

    def first_char(self, s, c):
        return self.w.hostcall(operator.getitem, core.concretize_keys(mk(c)), 0)

    def ostr_slice(self, s, st, sp, step):
        r = raw(s)
        if step in (None, 1):
            st = 0 if st is None else st
            nk = next((i for i, c in enumerate(r) if core.is_key(c)), len(r))
            lk = len(r) - next((i for i, c in enumerate(reversed(r)) if core.is_key(c)), len(r))
            a_ok = 0 <= st <= nk
            if a_ok and sp is None:
                return mk(r[st:])
            if a_ok and sp is not None and 0 <= sp <= nk:
                return mk(r[st:sp])
            if a_ok and sp is not None and sp < 0 and len(r) + sp >= lk:
                return mk(r[st:sp])
            if st < 0 and len(r) + st >= lk and sp is None:
                return mk(r[st:])
        return core.concretize_keys(s)[st:sp:step]

    def binop(self, t, a, b, aug):
        from interp import _BIN, Text
        w = self.w
        strs = (str, OStr)
        if t is ast.Add:
            a2, b2 = a, b
            if isinstance(a2, strs) and isinstance(b2, strs):
                return mk(raw(a2) + raw(b2))
            if (isinstance(a, (Der,)) or isinstance(b, (Der,)) or isinstance(a, Sym) or isinstance(b, Sym)) and (self.strlike(a) and self.strlike(b)):
                return self.str_concat(a, b)
        if t is ast.Mod and isinstance(a, strs):
            return self.percent(a, b)
        if t in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor):
            if isinstance(a, IDict) and isinstance(b, IDict) and t is ast.BitOr:
                d = a if aug else a.copy()
                self.dict_update(d, b)
                return d
            if isinstance(a, (ISet, IView)) and isinstance(b, (ISet, IView, list)):
                return self.set_op(t, a, b, aug)
        if isinstance(a, (SYMS)) or isinstance(b, SYMS):
            a, b = conc(a), conc(b)
            if a is None or b is None:
                raise PyRaise(TypeError(f"unsupported operand type(s): '{w.tyname(a)}' and '{w.tyname(b)}'"), w.here())
            a = core.concretize(a) if isinstance(a, SYMS) else a
            b = core.concretize(b) if isinstance(b, SYMS) else b
            return self.binop(t, a, b, aug)
        if aug and isinstance(a, list) and t is ast.Add:
            w.hostcall(a.extend, list(w.iterate(b)))
            return a
        if isinstance(a, (OStr,)) or isinstance(b, OStr):
            return w.hostcall(_BIN[t], core.concretize(a) if isinstance(a, OStr) else a, core.concretize(b) if isinstance(b, OStr) else b)
        if isinstance(a, IList) and isinstance(b, list) and t is ast.Add:
            return list(a) + list(b)
        if isinstance(a, Proxy) or isinstance(b, Proxy):
            raise PyRaise(TypeError(f"unsupported operand type(s): '{w.tyname(a)}' and '{w.tyname(b)}'"), w.here())
        return w.hostcall(_BIN[t], a, b)

    def strlike(self, v):
        if isinstance(v, (str, OStr, Der)):
            return True
        return isinstance(v, Sym) and kind(v) == "str"

    def percent(self, fmt, args):
        from interp import Text
        f = raw(fmt)
        items = list(args) if isinstance(args, tuple) else [args]
        if re.fullmatch(r"(?:[^%]|%s)*", f) and f.count("%s") == len(items) and not isinstance(args, IDict):
            parts = f.split("%s")
            out = [parts[0]]
            for p, v in zip(parts[1:], items):
                out.append(self.str_(v))
                out.append(p)
            return self.w.concat_text(out)
        if all(plain(x) for x in items) and isinstance(fmt, str):
            return self.w.hostcall(operator.mod, fmt, args if isinstance(args, tuple) else args)
        return Text("formatted text")

    # ------------------------------------------------------------------ string methods
    def str_method(self, s, name):
        """A bound string method."""
        if not hasattr(str, name):
            return self.UNBOUND
        return Meth(f"str.{name}", lambda *a, **k: self.strm(s, name, a, k), s)

    def strm(self, s, name, a, k):
        from interp import Text
        s = conc(s)
        if isinstance(s, Text):
            return Text("text")
        if name == "join":
            parts = list(self.w.iterate(a[0]))
            if any(isinstance(p, Unk) for p in parts):
                return self.w.concat_text([x for i, p in enumerate(parts) for x in ((s, p) if i else (p,))])
            out = []
            for i, p in enumerate(parts):
                p = conc(p)
                if not (isinstance(p, (str, OStr, Der)) or (isinstance(p, Sym) and kind(p) == "str")):
                    raise TypeError(f"sequence item {i}: expected str instance, {self.w.tyname(p)} found")
                if i:
                    out.append(s)
                out.append(p)
            return self.w.concat_text(out)
        if name in ("format", "format_map"):
            return self.format(s, a, k)
        if name in ("__eq__", "__ne__"):
            return eq(s, a[0]) == (name == "__eq__")
        if name == "__hash__":
            return self.w.hash_(s)
        if name == "__contains__":
            return self.substr(s, a[0])
        if name == "__len__":
            return self.w.len_(s)
        if name == "__getitem__":
            return self.str_getitem(s, a[0])
        if name == "__str__":
            return s
        args = [conc(x) for x in a]
        if any(isinstance(x, Unk) for x in args):
            return Unk("text")
        if name == "translate":
            args = [host_table(x) for x in args]
        if isinstance(s, SYMS):
            return self.sym_strm(s, name, args, k)
        if any(isinstance(x, SYMS) for x in args):
            if len(args) == 1 and name in ("startswith", "endswith") and isinstance(s, str):
                if name == "startswith":
                    ws = [s[:i] for i in range(len(s) + 1)]
                else:
                    ws = [s[i:] for i in range(len(s) + 1)]
                return core.ask_lang(args[0], lang.words(ws), f"prefix of {s!r}")
            args = [core.concretize(x) if isinstance(x, SYMS) else x for x in args]
        if isinstance(s, str) and not any(isinstance(x, OStr) or (isinstance(x, tuple) and any(isinstance(y, OStr) for y in x)) for x in args):
            if name == "encode":
                return Unk("bytes")
            return self.untuple(getattr(str, name)(s, *args, **k))
        if name in core._CHARMAP:
            return core.charmap(s, name)
        if name in ("startswith", "endswith") and isinstance(args[0], tuple):
            return any(self.strm(s, name, (x,) + tuple(args[1:]), k) for x in args[0])
        if name == "translate":
            t = args[0]
            return amb(lambda x: x.translate(t), [s], extra=[chr(c) for c in t if isinstance(c, int)] if isinstance(t, dict) else ())
        if name == "encode":
            return Unk("bytes")
        gen = core.GENERIC if name.startswith("is") else ()
        if name in ("index", "find", "rfind", "rindex", "count"):
            r = raw(s)
            if name == "count" or True:
                res = amb(lambda t, *b: (getattr(t, name)(*b) >= 0), [s] + args)
                if name == "count":
                    return amb(lambda t, *b: t.count(*b), [s] + args)
                if not res:
                    return -1
                # position within the text with keys: exact only before the first key
                pos = getattr(r, name)(*[raw(x) if isinstance(x, (OStr, str)) else x for x in args])
                if pos >= 0 and not any(core.is_key(c) for c in r[:pos]):
                    return pos
                return getattr(core.concretize_keys(s), name)(*args)
        return amb(lambda t, *b: getattr(t, name)(*b, **k), [s] + args, generic=gen)

    def untuple(self, v):
        return v

    def sym_strm(self, s, name, a, k):
        if kind(s) != "str":
            raise PyRaise(AttributeError(f"'{self.w.tyname(s)}' object has no attribute '{name}'"), self.w.here())
        if all(isinstance(x, (str, int, type(None))) or (isinstance(x, tuple) and all(isinstance(y, str) for y in x)) for x in a):
            if name in ("startswith", "endswith") and len(a) == 1:
                f = lang.starts if name == "startswith" else lang.ends
                ps = a[0] if isinstance(a[0], tuple) else (a[0],)
                d = lang.EMPTY
                for p in ps:
                    d = d | f(p)
                return core.ask_lang(s, d, f"{name} {a[0]!r}")
            if name == "removeprefix":
                p = a[0]
                if p and core.ask_lang(s, lang.starts(p), f"startswith {p!r}"):
                    return Der(s, f"removeprefix({p!r})", lambda d: lang.concat(lang.lit(p), d), lambda t: t.removeprefix(p))
                return s
            if name == "removesuffix":
                p = a[0]
                if p and core.ask_lang(s, lang.ends(p), f"endswith {p!r}"):
                    return Der(s, f"removesuffix({p!r})", lambda d: lang.concat(d, lang.lit(p)), lambda t: t.removesuffix(p))
                return s
            if name in ("strip", "lstrip", "rstrip"):
                l, r = name != "rstrip", name != "lstrip"
                if not a or a[0] is None:
                    return Der(s, f"{name}()", lambda d: lang.strip_preimage(d, l, r), lambda t: getattr(t, name)())
                return Der(s, f"{name}({a[0]!r})", lambda d: strip_chars_preimage(d, a[0], l, r), lambda t: getattr(t, name)(a[0]))
            if name in ("lower", "upper", "casefold", "swapcase"):
                f = getattr(str, name)
                return Der(s, f"{name}()", lambda d: lang.map_preimage(d, f), lambda t: f(t))
            if name in ("isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum", "isspace", "isascii"):
                f = getattr(str, name)
                d = lang.star(lang.charset(lang.mask_of(f)))
                if name != "isascii":
                    d = d - lang.lit("")
                return core.ask_lang(s, d, name)
            if name in ("split", "rsplit", "partition", "rpartition") and a and isinstance(a[0], str) and len(a[0]) == 1 and name != "rpartition":
                return self.sym_split(s, name, a, k)
        s = core.concretize(s)
        a = [core.concretize(x) if isinstance(x, (SYMS, OStr)) else x for x in a]
        return getattr(s, name)(*a, **k)

    def sym_split(self, s, name, a, k):
        sep = a[0]
        mx = a[1] if len(a) > 1 else k.get("maxsplit", -1)
        nos = ~lang.contains(sep)
        L = lang.lit(sep)
        if name == "partition":
            if core.ask_lang(s, lang.contains(sep), f"contains {sep!r}"):
                return (Der(s, "before", lambda d: lang.concat(d & nos, L, lang.ALL), lambda t: t.partition(sep)[0]), sep,
                        Der(s, "after", lambda d: lang.concat(nos, L, d), lambda t: t.partition(sep)[2]))
            return (s, "", "")
        if name == "rsplit" and mx != -1:
            if mx == 1:
                if core.ask_lang(s, lang.contains(sep), f"contains {sep!r}"):
                    return [Der(s, "rbefore", lambda d: lang.concat(d, L, nos), lambda t: t.rsplit(sep, 1)[0]),
                            Der(s, "rafter", lambda d: lang.concat(lang.ALL, L, d & nos), lambda t: t.rsplit(sep, 1)[1])]
                return [s]
            return core.concretize(s).rsplit(sep, mx)
        top = 6 if mx == -1 else mx
        n = 0
        while n < top:
            # exactly n separators?
            exact = lang.concat(*([nos] + [x for _ in range(n) for x in (L, nos)]))
            if core.ask_lang(s, exact, f"has {n} {sep!r}"):
                break
            n += 1
        else:
            if mx == -1:
                return core.concretize(s).split(sep)
        out = []
        for i in range(n + 1):
            last = i == n and n == mx
            pre = [x for _ in range(i) for x in (nos, L)]
            post = [] if i == n else [L, lang.ALL]

            def pull(d, pre=pre, post=post, last=last):
                return lang.concat(*pre, d if last else d & nos, *post)
            out.append(Der(s, f"split({sep!r})[{i}]", pull, lambda t, i=i: t.split(sep, mx)[i]))
        return out

    def format(self, fmt, a, k):
        from interp import Text
        if not isinstance(fmt, (str, OStr)):
            return Text("text")
        f = raw(fmt)
        try:
            parts = list(string.Formatter().parse(f))
        except ValueError:
            return Text("text")
        out, auto = [], 0
        for litp, field, spec, conv in parts:
            out.append(mk(litp))
            if field is None:
                continue
            m = re.match(r"^(\w*)", field)
            head = m.group(1)
            rest = field[len(head):]
            if head == "":
                v = a[auto]
                auto += 1
            elif head.isdigit():
                v = a[int(head)]
            elif head in k:
                v = k[head]
            else:
                raise KeyError(head)
            if rest or spec:
                return Text("text")
            out.append(self.w.fmt(v, {"r": 114, "s": 115}.get(conv, -1), None))
        return self.w.concat_text(out)

    # ------------------------------------------------------------------ regular expressions
    def pat(self, p, flags=0):
        if isinstance(p, Pat):
            return p
        p = conc(p)
        if isinstance(p, (OStr, SYMS)):
            p = core.concretize(p)
        if not isinstance(p, str):
            raise TypeError("first argument must be string or compiled pattern")
        re.compile(p, flags)
        return Pat(p, int(flags))

    def re_compile(self, p, flags=0):
        return self.pat(p, flags)

    def re_escape(self, s):
        return self.strcall(re.escape, s)

    def re_match(self, p, s, flags=0):
        return self.do_match(self.pat(p, flags), "match", s)

    def re_fullmatch(self, p, s, flags=0):
        return self.do_match(self.pat(p, flags), "fullmatch", s)

    def re_search(self, p, s, flags=0):
        return self.do_match(self.pat(p, flags), "search", s)

    def note_match(self, p, mode, s):
        """Record what text this pattern is tried on (used by C38)."""
        w = self.w
        if getattr(w, "matched", None) is not None:
            w.matched.append((p.p, p.flags, mode, core.text_lang(s), w.here()))

    def do_match(self, p, mode, s):
        s = conc(s)
        self.note_match(p, mode, s)
        if isinstance(s, Unk):
            return Unk("match")
        if isinstance(s, SYMS) and kind(s) == "str":
            try:
                d = lang.regex(p.p, p.flags, mode)
            except lang.Unsupported:
                s = core.concretize(s)
            else:
                if core.ask_lang(s, d, f"re.{mode} {p.p!r}"):
                    return MatchS(s, p, mode)
                return None
        if not isinstance(s, (str, OStr)):
            raise PyRaise(TypeError(f"expected string or bytes-like object, got '{self.w.tyname(s)}'"), self.w.here())

        def f(t):
            m = getattr(re, mode)(p.p, t, p.flags)
            if m is None:
                return None
            return (m.group(), m.groups(), tuple(m.groupdict().items()), m.span())
        if isinstance(s, OStr):
            r = amb(lambda t: (lambda x: x if x is None else x[:3])(f(t)), (s,), extra=(re.sub(r"\\.", " ", p.p),), generic=core.GENERIC)
            if r is None:
                return None
            return MatchR(r[0], r[1], dict(r[2]), None, s, p)
        r = f(s)
        return None if r is None else MatchR(r[0], r[1], dict(r[2]), r[3], s, p)

    def match_attr(self, m, name):
        if isinstance(m, MatchR):
            if name == "group":
                def group(*a):
                    if not a:
                        return m.g0
                    out = [m.g0 if x == 0 else (m.groups[x - 1] if isinstance(x, int) else m.names[x]) for x in a]
                    return out[0] if len(out) == 1 else tuple(out)
                return Meth("group", group)
            if name == "groups":
                return Meth("groups", lambda d=None: tuple(d if g is None else g for g in m.groups))
            if name == "groupdict":
                return Meth("groupdict", lambda d=None: IDict(list(m.names.items())))
            if name in ("start", "end", "span") and m.span is not None:
                mm = [x for x in [re.compile(m.pat.p, m.pat.flags)]][0]
                return Meth(name, lambda *a: {"start": m.span[0], "end": m.span[1], "span": m.span}[name] if not a or a[0] == 0 else Unk("span"))
            if name == "string":
                return m.s
            if name == "lastgroup":
                return Unk("lastgroup")
        else:
            if name == "group":
                def sgroup(*a):
                    out = []
                    for x in (a or (0,)):
                        if x == 0:
                            if m.mode == "fullmatch":
                                out.append(m.v)
                                continue
                            out.append(getattr(re, m.mode)(m.pat.p, core.concretize(m.v), m.pat.flags).group())
                            continue
                        out.append(self.sym_group(m, x))
                    return out[0] if len(out) == 1 else tuple(out)
                return Meth("group", sgroup)
            if name == "groups":
                return Meth("groups", lambda d=None: tuple(self.sym_group(m, i + 1) for i in range(lang.group_count(m.pat.p, m.pat.flags) - 1)))
            if name == "string":
                return m.v
            v = core.concretize(m.v)
            return self.match_attr(self.do_match(m.pat, m.mode, v), name)
        raise Undecided(f"match.{name}")

    def sym_group(self, m, x):
        try:
            lang.group_preimage(m.pat.p, m.pat.flags, m.mode, x, lang.ALL)
        except lang.Unsupported:
            return getattr(re, m.mode)(m.pat.p, core.concretize(m.v), m.pat.flags).group(x)
        # may the group not take part?
        part = lang.group_preimage(m.pat.p, m.pat.flags, m.mode, x, lang.ALL)
        return Der(m.v, f"group({x!r})", lambda d: lang.group_preimage(m.pat.p, m.pat.flags, m.mode, x, d),
                   lambda t: getattr(re, m.mode)(m.pat.p, t, m.pat.flags).group(x))

    def re_sub(self, p, repl, s, count=0, flags=0):
        p = self.pat(p, flags)
        self.note_match(p, "sub", conc(s))
        if not isinstance(repl, (str, OStr)):
            def rf(m):
                return self.need_str(self.w.call(repl, [MatchR(m.group(), m.groups(), m.groupdict(), m.span(), s, p)], {}))
            return self.strcall(lambda t: re.sub(p.p, rf, t, count, p.flags), s)
        return self.strcall(lambda t, r: re.sub(p.p, r, t, count, p.flags), s, repl)

    def re_subn(self, p, repl, s, count=0, flags=0):
        p = self.pat(p, flags)
        self.note_match(p, "subn", conc(s))
        return self.strcall(lambda t, r: re.subn(p.p, r, t, count, p.flags), s, repl)

    def re_split(self, p, s, maxsplit=0, flags=0):
        p = self.pat(p, flags)
        self.note_match(p, "split", conc(s))
        return self.strcall(lambda t: re.split(p.p, t, maxsplit, p.flags), s)

    def re_findall(self, p, s, flags=0):
        p = self.pat(p, flags)
        self.note_match(p, "findall", conc(s))
        return self.strcall(lambda t: re.findall(p.p, t, p.flags), s)

    def re_finditer(self, p, s, flags=0):
        p = self.pat(p, flags)
        self.note_match(p, "finditer", conc(s))
        s = self.need_str(s)
        return iter([MatchR(m.group(), m.groups(), m.groupdict(), m.span(), s, p) for m in re.finditer(p.p, s, p.flags)])

    # ------------------------------------------------------------------ attributes of built-in values
    def getattr(self, o, name):
        w = self.w
        if isinstance(o, Unk):
            return Unk(f"{o.why}.{name}")
        if isinstance(o, Null):
            return Null(f"{o.path}.{name}")
        if isinstance(o, HMod):
            return self.hmod_attr(o.name, name)
        if type(o).__name__ == "VInfo":
            if name in ("data", "field_name", "mode", "context"):
                return getattr(o, name)
            if name == "config":
                return Unk("validation config")
            w.noattr(o, name)
        if name == "__class__":
            return w.type_(o)
        if isinstance(o, (str, OStr, Der)) or (isinstance(o, Sym) and kind(o) == "str"):
            v = self.str_method(o, name)
            if v is not self.UNBOUND:
                return v
            w.noattr(o, name)
        if isinstance(o, IDict):
            v = self.dict_method(o, name)
            if v is not self.UNBOUND:
                return v
            w.noattr(o, name)
        if isinstance(o, ISet):
            v = self.set_method(o, name)
            if v is not self.UNBOUND:
                return v
            w.noattr(o, name)
        if isinstance(o, list):
            v = self.list_method(o, name)
            if v is not self.UNBOUND:
                return v
            w.noattr(o, name)
        if isinstance(o, FuncV):
            return self.func_attr(o, name)
        if isinstance(o, BoundV):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.f
            return w.getattr(o.f, name)
        if isinstance(o, CachedF):
            if name == "__wrapped__":
                return o.f
            if name == "cache_clear":
                return Meth(name, lambda: [o.cache.delete(k) for k in list(o.cache)] and None)
            return w.getattr(o.f, name)
        if isinstance(o, ExtV):
            if name == "__name__":
                return o.name
            return self.ext(f"{o.q}.{name}")
        if isinstance(o, ExtCall):
            return ExtV(f"{o.q}().{name}")
        if isinstance(o, ChainObj):
            if name == "from_iterable":
                return Meth(name, lambda xs: (y for x in w.iterate(xs) for y in w.iterate(x)))
        if isinstance(o, GenT):
            if name == "__origin__":
                return o.origin
            if name == "__args__":
                return o.args
            return w.getattr(o.origin, name)
        if isinstance(o, UnionT) and name == "__args__":
            return tuple(type(None) if x is None else x for x in o.args)
        if isinstance(o, Pat):
            if name in ("match", "fullmatch", "search"):
                return Meth(name, lambda s, *a: self.do_match(o, name, s))
            if name == "pattern":
                return o.p
            if name == "flags":
                return re.compile(o.p, o.flags).flags
            if name in ("sub", "subn"):
                return Meth(name, lambda r, s, count=0: getattr(self, "re_" + name)(o, r, s, count))
            if name in ("split", "findall", "finditer"):
                return Meth(name, lambda s, *a: getattr(self, "re_" + name)(o, s, *a))
        if isinstance(o, (MatchR, MatchS)):
            return self.match_attr(o, name)
        if isinstance(o, FieldV):
            return w.pyd.field_attr(o, name)
        if isinstance(o, Wrapped):
            if o.kind == "property" and name in ("setter", "getter", "deleter"):
                return Meth(name, lambda f: Wrapped("property", o.f, {**o.extra, name: f}))
            if name in ("__func__", "fget", "__wrapped__"):
                return o.f
            if name == "register":
                return Meth(name, lambda *a: (lambda f: f))
        if isinstance(o, PydDec):
            return w.getattr(o.f, name)
        if isinstance(o, Meth):
            if name == "__name__":
                return o.name
            if name == "__self__":
                return o.self_
            if name in ("__doc__", "__wrapped__", "__module__", "__qualname__"):
                return None
            if o.name == "partial" and name == "func":
                return o.self_
            w.noattr(o, name)
        if isinstance(o, BaseException):
            if name == "args":
                return o.args
            if name in ("__cause__", "__context__", "__traceback__"):
                return None
            if name in ("with_traceback", "add_note"):
                return Meth(name, lambda *a: o)
            if isinstance(o, PydValidationError) and name in ("errors", "title", "error_count", "json"):
                return Meth(name, lambda *a, **k: Unk("validation errors"))
            if hasattr(type(o), name):
                v = getattr(o, name)
                return Meth(name, v) if callable(v) else v
            w.noattr(o, name)
        if isinstance(o, type):
            return self.type_attr(o, name)
        if isinstance(o, UrlV):
            if name in ("scheme", "host", "path", "query", "fragment", "port", "username", "password", "unicode_string"):
                return Unk("url part")
            w.noattr(o, name)
        if isinstance(o, tuple):
            c = getattr(type(o), "_classv", None)
            if hasattr(type(o), "_fields"):
                if name in type(o)._fields:
                    return getattr(o, name)
                if name == "_replace":
                    return Meth(name, lambda **k: o._replace(**k))
                if name == "_asdict":
                    return Meth(name, lambda: IDict(list(zip(type(o)._fields, o))))
                if name == "_fields":
                    return type(o)._fields
            if c is not None:
                r = c.find(name)
                if r is not None:
                    return w.bind_desc(r[1], None, c, name) if not isinstance(r[1], (FuncV, Wrapped)) else (BoundV(r[1], o) if isinstance(r[1], FuncV) else w.call(r[1].f, [o], {}))
            if name in ("index", "count"):
                return Meth(name, lambda x: sum(1 for y in o if eq(x, y)) if name == "count" else next(i for i, y in enumerate(o) if eq(x, y)))
            w.noattr(o, name)
        if isinstance(o, types.GeneratorType):
            if name in ("send", "throw", "close", "__next__"):
                return Meth(name, getattr(o, name))
        if isinstance(o, (IntOf, Sym)):
            v = core.concretize(o)
            return w.getattr(v, name)
        if o is None or isinstance(o, (bool, int, float)):
            if hasattr(o, name):
                v = getattr(o, name)
                return Meth(name, v) if callable(v) else v
            w.noattr(o, name)
        if isinstance(o, collections.deque):
            if hasattr(o, name):
                v = getattr(o, name)
                if name in ("extend", "extendleft"):
                    return Meth(name, lambda xs: v(list(w.iterate(xs))))
                return Meth(name, v) if callable(v) else v
            w.noattr(o, name)
        if isinstance(o, Proxy):
            w.noattr(o, name)
        if hasattr(o, name):
            v = getattr(o, name)
            return Meth(name, v) if callable(v) and not isinstance(v, type) else v
        w.noattr(o, name)

    def func_attr(self, f, name):
        if name in ("__name__", "__qualname__"):
            return f.name if name == "__name__" else (f"{f.defcls.name}.{f.name}" if f.defcls else f.name)
        if name == "__module__":
            return f.module.name
        if name == "__doc__":
            return ast.get_docstring(f.node) if isinstance(f.node, ast.FunctionDef) else None
        if name == "__dict__":
            return IDict(list((f.attrs or {}).items()))
        if f.attrs and name in f.attrs:
            return f.attrs[name]
        if name == "__call__":
            return f
        if name == "__get__":
            return Meth(name, lambda o, c=None: BoundV(f, o))
        if name == "__wrapped__":
            self.w.noattr(f, name)
        self.w.noattr(f, name)

    def type_attr(self, t, name):
        w = self.w
        if name == "__name__" or name == "__qualname__":
            return t.__name__
        c = getattr(t, "_classv", None)
        if c is not None:
            r = c.find(name)
            if r is not None:
                return w.bind_desc(r[1], None, c, name)
        if t is object:
            return self.object_unbound(name)
        if t is str:
            if name == "maketrans":
                return Meth(name, lambda *a: w.hostcall(str.maketrans, *[host_table(x) for x in a]))
            return Meth(f"str.{name}", lambda s, *a, **k: self.strm(s, name, a, k))
        if t is dict:
            if name == "fromkeys":
                return Meth(name, lambda ks, v=None: IDict([(x, v) for x in w.iterate(ks)]))
            return Meth(f"dict.{name}", lambda d, *a, **k: w.call(w.getattr(d, name), list(a), k))
        if t in (list, set, frozenset):
            return Meth(f"{t.__name__}.{name}", lambda d, *a, **k: w.call(w.getattr(d, name), list(a), k))
        if t is type and name == "__call__":
            return Meth("type.__call__", lambda c, *a, **k: w.call(c, list(a), k))
        if hasattr(t, name):
            v = getattr(t, name)
            return Meth(f"{t.__name__}.{name}", v) if callable(v) else v
        py = PyRaise(AttributeError(f"type object '{t.__name__}' has no attribute '{name}'"), w.here())
        raise py

    def object_unbound(self, name):
        w = self.w
        if name == "__setattr__":
            return Meth("object.__setattr__", lambda o, n, v: self.object_setattr(o, n, v))
        if name == "__getattribute__":
            return Meth("object.__getattribute__", lambda o, n: w.inst_attr_base(o, n))
        if name == "__delattr__":
            return Meth("object.__delattr__", lambda o, n: self.object_delattr(o, n))
        if name == "__new__":
            return Meth("object.__new__", lambda c, *a, **k: Inst(c))
        if name in ("__init__", "__init_subclass__"):
            return Meth("object.__init__", lambda *a, **k: None)
        if name == "__hash__":
            return Meth("object.__hash__", lambda o: IdInt(id(o)))
        if name == "__eq__":
            return Meth("object.__eq__", lambda a, b: True if a is b else NotImplemented)
        if name in ("__repr__", "__str__"):
            return Meth("object.__repr__", lambda o: Unk("text"))
        raise PyRaise(AttributeError(name), w.here())

    def object_method(self, obj, name):
        if name in ("__setattr__", "__getattribute__", "__delattr__", "__init__", "__hash__", "__eq__", "__repr__", "__str__", "__init_subclass__"):
            m = self.object_unbound(name)
            return Meth(name, lambda *a, **k: m.fn(obj, *a, **k))
        if name == "__new__":
            return self.object_unbound(name)
        for b in (obj.cls.mro if isinstance(obj, Inst) else obj.mro):
            if isinstance(b, type) and issubclass(b, BaseException) and name == "__init__":
                return Meth(name, lambda *a, **k: None)
        return self.UNBOUND

    def object_setattr(self, o, n, v):
        w = self.w
        if not isinstance(o, Inst):
            raise PyRaise(TypeError("can't apply this __setattr__"), w.here())
        n = self.need_name(n)
        if w.pyd.is_model(o.cls):
            w.pyd.raw_setattr(o, n, v)
        else:
            w.raw_set(o, n, v)

    def object_delattr(self, o, n):
        if n in o.d.idx:
            o.d.delete(n)
        else:
            raise PyRaise(AttributeError(n), self.w.here())

    def inst_builtin_attr(self, o, name):
        if name == "__dict__":
            return o.d
        if name in ("__doc__",):
            return o.cls.doc
        if name == "__module__":
            return o.cls.module.name
        if self.is_enum(o):
            if name in ("value", "_value_"):
                return o.d.get("value")
            if name in ("name", "_name_"):
                return o.d.get("name")
            if self.enum_mixin(o.cls) is str:
                v = self.str_method(o.d.get("value"), name)
                if v is not self.UNBOUND:
                    return v
        if name in ("args",) and self.w.exc_base(o.cls):
            return ()
        if name == "with_traceback" and self.w.exc_base(o.cls):
            return Meth(name, lambda *a: o)
        if self.w.pyd.is_model(o.cls):
            return self.UNBOUND
        m = self.object_method(o, name)
        return m

    def class_builtin_attr(self, c, name):
        if name == "__doc__":
            return c.doc
        if name == "__qualname__":
            return c.name
        if name == "__subclasses__":
            return Meth(name, lambda: Unk("subclasses"))
        if name == "mro":
            return Meth(name, lambda: list(c.mro) + [object])
        if name == "__call__":
            return Meth("__call__", lambda *a, **k: self.w.call(c, list(a), k))
        if name in ("__setattr__", "__getattribute__", "__delattr__", "__init__", "__new__", "__hash__", "__eq__", "__repr__", "__str__"):
            return self.object_unbound(name)
        for b in c.mro:
            if isinstance(b, type) and hasattr(b, name):
                v = getattr(b, name)
                if b is str:
                    return self.type_attr(str, name)
                return Meth(name, v) if callable(v) else v
        if c.cache.get("enum") is not None and name in ("_value2member_map_",):
            return IDict([(m.d.get("value"), m) for m in c.cache["enum"].vals_()])
        return self.UNBOUND

    # ------------------------------------------------------------------ containers
    def dict_update(self, d, src, kw=None):
        w = self.w
        src = conc(src)
        if isinstance(src, IDict):
            for k, v in src.live():
                d.set(k, v)
        elif isinstance(src, Inst) and self.has_keys(src):
            for k in w.iterate(w.call(w.getattr(src, "keys"), [], {})):
                d.set(k, w.getitem(src, k))
        elif isinstance(src, Unk):
            raise Undecided("dict from an unknown value")
        elif src is not None:
            for pair in w.iterate(src):
                p = list(w.iterate(pair))
                if len(p) != 2:
                    raise ValueError("dictionary update sequence element has wrong length")
                d.set(p[0], p[1])
        else:
            raise TypeError("'NoneType' object is not iterable")
        for k, v in (kw or {}).items():
            d.set(k, v)

    def has_keys(self, o):
        return self.w.typeattr(o.cls, "keys") is not None

    def mkdict(self, a, kw, factory=None):
        d = IDict(factory=factory)
        if a:
            self.dict_update(d, a[0])
        for k, v in kw.items():
            d.set(k, v)
        return d

    def counter(self, *a, **k):
        d = IDict(factory=lambda: 0)
        if a:
            for x in self.w.iterate(a[0]):
                d.set(x, d.get(x, 0) + 1)
        return d

    def view(self, d, k):
        v = IView(d.keys_() if k == "keys" else d.vals_() if k == "values" else [(x, y) for x, y in d.live()])
        v.kind = k
        return v

    def dict_method(self, d, name):
        w = self.w
        h = lambda f: Meth(f"dict.{name}", f, d)
        if name in ("keys", "values", "items"):
            return h(lambda: self.view(d, name))
        if name == "get":
            return h(lambda k, x=None: d.get(k, x))
        if name == "pop":
            def pop(k, *x):
                if d.find(k) is None and x:
                    return x[0]
                return d.delete(k)
            return h(pop)
        if name == "popitem":
            def popitem():
                p = d.live()
                if not p:
                    raise KeyError("popitem(): dictionary is empty")
                k = p[-1][0]
                return (k, d.delete(k))
            return h(popitem)
        if name == "setdefault":
            def sd(k, x=None):
                i = d.find(k)
                if i is not None:
                    return d.pairs[i][1]
                d.set(k, x)
                return x
            return h(sd)
        if name == "update":
            return h(lambda *a, **k: self.dict_update(d, a[0] if a else IDict(), k))
        if name == "copy":
            return h(lambda: d.copy())
        if name == "clear":
            return h(lambda: [d.delete(k) for k in list(d.keys_())] and None)
        if name == "fromkeys":
            return h(lambda ks, v=None: IDict([(x, v) for x in w.iterate(ks)]))
        if name == "most_common":
            return h(lambda n=None: self.sorted_([(k, v) for k, v in d.live()], Meth("k", lambda p: p[1]), True)[:n])
        m = {"__getitem__": d.__getitem__, "__setitem__": d.set, "__delitem__": d.delete, "__contains__": d.__contains__, "__len__": d.__len__, "__iter__": d.__iter__}
        if name in m:
            return h(m[name])
        if name == "__eq__":
            return h(lambda o: eq(d, o))
        if name == "__or__":
            return h(lambda o: self.binop(ast.BitOr, d, o, False))
        if name in ("__missing__", "__class_getitem__"):
            return self.UNBOUND
        return self.UNBOUND

    def list_method(self, l, name):
        w = self.w
        h = lambda f: Meth(f"list.{name}", f, l)
        if isinstance(l, IView):
            if name in ("isdisjoint",):
                return h(lambda o: not any(w.contains(o, x) for x in l))
            if name == "mapping":
                return Unk("mapping")
            if name not in ("__iter__", "__len__", "__contains__"):
                return self.UNBOUND
        if name == "append":
            return h(l.append)
        if name == "extend":
            return h(lambda xs: l.extend(list(w.iterate(xs))))
        if name == "insert":
            return h(l.insert)
        if name == "pop":
            return h(l.pop)
        if name == "clear":
            return h(l.clear)
        if name == "copy":
            return h(lambda: list(l))
        if name == "reverse":
            return h(l.reverse)
        if name == "sort":
            def sort(key=None, reverse=False):
                s = self.sorted_(l, key, reverse)
                if isinstance(l, IList):
                    l._touch(("sort",))
                list.__setitem__(l, slice(None), s)
            return h(sort)
        if name == "remove":
            def remove(x):
                for i, y in enumerate(l):
                    if w.equal(x, y):
                        del l[i]
                        return
                raise ValueError("list.remove(x): x not in list")
            return h(remove)
        if name == "index":
            def index(x, *a):
                for i, y in enumerate(l):
                    if w.equal(x, y):
                        return i
                raise ValueError("x is not in list")
            return h(index)
        if name == "count":
            return h(lambda x: sum(1 for y in l if w.equal(x, y)))
        m = {"__getitem__": l.__getitem__, "__len__": l.__len__, "__iter__": l.__iter__, "__setitem__": l.__setitem__, "__delitem__": l.__delitem__}
        if name in m:
            return h(m[name])
        if name == "__contains__":
            return h(lambda x: w.contains(l, x))
        return self.UNBOUND

    def set_op(self, t, a, b, aug=False):
        w = self.w
        bl = list(b)
        mk_ = FSet if isinstance(a, FSet) else ISet
        if t is ast.BitOr:
            out = list(a) + bl
        elif t is ast.BitAnd:
            out = [x for x in a if w.contains(b, x)]
        elif t is ast.Sub:
            out = [x for x in a if not w.contains(b, x)]
        else:
            out = [x for x in a if not w.contains(b, x)] + [x for x in bl if not w.contains(a, x)]
        if aug and isinstance(a, ISet) and not isinstance(a, FSet):
            a._touch(("update",))
            a.d = ISet(out).d
            return a
        return mk_(out)

    def set_order(self, o, a, b):
        w = self.w
        sub = all(w.contains(b, x) for x in a)
        sup = all(w.contains(a, x) for x in b)
        return {"<=": sub, ">=": sup, "<": sub and not sup, ">": sup and not sub, "==": sub and sup}[o]

    def set_method(self, s, name):
        w = self.w
        h = lambda f: Meth(f"set.{name}", f, s)
        if name == "add" and not isinstance(s, FSet):
            return h(s.add)
        if name in ("discard", "remove"):
            def rem(x):
                if s.d.find(x) is None:
                    if name == "remove":
                        raise KeyError(x)
                    return
                s._touch((name, x))
                s.d.delete(x)
            return h(rem)
        if name == "pop":
            def pop():
                k = s.d.keys_()
                if not k:
                    raise KeyError("pop from an empty set")
                s._touch(("pop",))
                s.d.delete(k[0])
                return k[0]
            return h(pop)
        if name == "clear":
            def clear():
                s._touch(("clear",))
                s.d = IDict()
            return h(clear)
        if name == "copy":
            return h(lambda: type(s)(list(s)))
        ops = {"union": ast.BitOr, "intersection": ast.BitAnd, "difference": ast.Sub, "symmetric_difference": ast.BitXor}
        if name in ops:
            def op(*xs):
                r = s
                for x in xs:
                    r = self.set_op(ops[name], r, ISet(w.iterate(x)))
                return type(s)(list(r))
            return h(op)
        ups = {"update": ast.BitOr, "intersection_update": ast.BitAnd, "difference_update": ast.Sub}
        if name in ups:
            def upd(*xs):
                for x in xs:
                    if name == "update":
                        for y in w.iterate(x):
                            s.add(y)
                    else:
                        self.set_op(ups[name], s, ISet(w.iterate(x)), True)
            return h(upd)
        if name == "issubset":
            return h(lambda o: self.set_order("<=", s, ISet(w.iterate(o))))
        if name == "issuperset":
            return h(lambda o: self.set_order(">=", s, ISet(w.iterate(o))))
        if name == "isdisjoint":
            return h(lambda o: not any(x in s for x in w.iterate(o)))
        m = {"__contains__": s.__contains__, "__len__": s.__len__, "__iter__": s.__iter__}
        if name in m:
            return h(m[name])
        return self.UNBOUND

    def inst_contains(self, c, x):
        if self.w.pyd.is_model(c.cls):
            return any(self.w.equal(x, y) for y in self.w.iterate(c))
        raise PyRaise(TypeError(f"argument of type '{c.cls.name}' is not iterable"), self.w.here())

    def inst_getitem(self, o, k):
        raise PyRaise(TypeError(f"'{o.cls.name}' object is not subscriptable"), self.w.here())

    def getitem(self, o, k):
        if isinstance(o, (MatchR, MatchS)):
            return self.match_attr(o, "group").fn(k)
        if isinstance(o, ExtCall):
            return ExtCall(o.q + "[]", (k,), {})
        if isinstance(o, Null):
            return o
        if isinstance(o, GenT):
            return GenT(o.origin, k if isinstance(k, tuple) else (k,))
        if isinstance(o, UnionT):
            return o
        raise PyRaise(TypeError(f"'{self.w.tyname(o)}' object is not subscriptable"), self.w.here())

    def subscript_type(self, o, k):
        w = self.w
        args = k if isinstance(k, tuple) else (k,)
        if isinstance(o, ExtV):
            if o.q == "typing.Optional":
                return UnionT([args[0], None])
            if o.q == "typing.Union":
                return UnionT(args)
            if o.q == "typing.Annotated":
                return GenT(o, args)
            return GenT(o, args)
        if isinstance(o, ClassV):
            if o.cache.get("enum") is not None:
                m = o.cache["enum"].get(k)
                if m is None:
                    raise PyRaise(KeyError(k), w.here())
                return m
            return GenT(o, args)
        return GenT(o, args)

    def get_args(self, t):
        t = conc(t)
        if isinstance(t, UnionT):
            return tuple(type(None) if x is None else x for x in t.args)
        if isinstance(t, GenT):
            return tuple(t.args)
        return ()

    def get_origin(self, t):
        t = conc(t)
        if isinstance(t, UnionT):
            return types.UnionType
        if isinstance(t, GenT):
            return t.origin
        return None

    # ------------------------------------------------------------------ calls of types and external names
    def call_type(self, t, a, kw):
        w = self.w
        if getattr(t, "_classv", None) is not None or hasattr(t, "_fields"):
            return w.hostcall(t, *a, **kw)
        if t is str:
            if not a:
                return ""
            return self.str_(a[0])
        if t is bool:
            return truth(a[0]) if a else False
        if t is int:
            return self.int_(a, kw)
        if t is float:
            v = conc(a[0]) if a else 0.0
            if isinstance(v, Unk):
                return Unk("float")
            if isinstance(v, (SYMS, OStr)):
                v = core.concretize(v)
            return w.hostcall(float, v)
        if t is list:
            return list(w.iterate(a[0])) if a else []
        if t is tuple:
            return tuple(w.iterate(a[0])) if a else ()
        if t is set:
            return w.hostcall(ISet, list(w.iterate(a[0])) if a else [])
        if t is frozenset:
            return w.hostcall(FSet, list(w.iterate(a[0])) if a else [])
        if t is dict:
            return w.hostcall(self.mkdict, a, kw)
        if t is type:
            if len(a) == 1:
                return w.type_(a[0])
            from interp import Env
            name, bases, ns = a
            cls = w.mkclass(name, list(bases), {}, None, Env(w.site_stack[-1][0].module) if w.site_stack else None)
            for k, v in ns.live():
                cls.ns[k] = v
            return cls
        if t is object:
            return Inst(self.obj_class())
        if t is range:
            return w.hostcall(range, *[self.cz(x) for x in a])
        if t is slice:
            return slice(*a)
        if issubclass(t, BaseException):
            try:
                return t(*a)
            except TypeError:
                return t(*[show(x) for x in a])
        if t is collections.deque:
            return collections.deque(w.iterate(a[0]) if a else [], *a[1:], **kw)
        if t in (bytes, bytearray, complex):
            return Unk(t.__name__)
        return w.hostcall(t, *a, **kw)

    def obj_class(self):
        if "object" not in NT_CACHE:
            NT_CACHE["object"] = ClassV("object", None, (), None, {})
        return NT_CACHE["object"]

    def ns_class(self):
        if "ns" not in NT_CACHE:
            NT_CACHE["ns"] = ClassV("SimpleNamespace", None, (), None, {})
        return NT_CACHE["ns"]

    def int_(self, a, kw):
        w = self.w
        if not a:
            return 0
        v = conc(a[0])
        if isinstance(v, Unk):
            return Unk("int")
        if isinstance(v, SYMS):
            k = kind(v)
            if k == "int":
                return v
            if k == "str" and len(a) == 1:
                if not core.ask_lang(v, lang.int_literal(), "is an integer literal"):
                    raise PyRaise(ValueError("invalid literal for int() with base 10"), w.here())
                return IntOf(v)
            v = core.concretize(v)
        if isinstance(v, OStr):
            return amb(lambda s: int(s), (v,), generic=core.GENERIC)
        if isinstance(v, Inst):
            f = w.typeattr(v.cls, "__int__")
            if f is not None:
                return w.call(f, [v], {})
            raise PyRaise(TypeError("int() argument must be a string or a real number"), w.here())
        if isinstance(v, (list, IDict, ISet, tuple)):
            raise PyRaise(TypeError("int() argument must be a string or a real number"), w.here())
        return w.hostcall(int, v, *a[1:], **kw)

    PURE_EXT = ()

    def call_ext(self, f, a, kw):
        w = self.w
        q = f.q
        if isinstance(f, ExtCall):
            # decorator or callable produced by an external call
            if q.startswith("pydantic.") and a and isinstance(a[0], (FuncV, Wrapped, PydDec)):
                k = q.split(".")[-1]
                if k in ("field_validator", "model_validator", "field_serializer", "model_serializer", "computed_field", "validate_call"):
                    return PydDec(k, f.args, f.kwargs, a[0])
            if q == "functools.lru_cache":
                return CachedF(a[0], getattr(a[0], "qual", "?"))
            return ExtCall(q + "()", a, kw)
        if q.startswith("pydantic."):
            n = q.split(".")[-1]
            if n in ("model_serializer", "computed_field", "field_serializer") and a and isinstance(a[0], (FuncV, Wrapped)):
                return PydDec(n, (), {}, a[0])
            r = w.pyd.call_ext(n, a, kw)
            if r is not self.UNBOUND:
                return r
        if q.startswith("typing."):
            if q == "typing.NamedTuple":
                fields = [tuple(x) for x in a[1]]
                return collections.namedtuple(a[0], [n for n, _ in fields])
            return ExtCall(q, a, kw)
        if q == "dataclasses.field":
            return ExtCall(q, a, kw)
        if q == "dataclasses.replace":
            o = self.copy(a[0], False)
            for k, v in kw.items():
                o.d.set(k, v)
            return o
        if q == "dataclasses.astuple":
            return tuple(a[0].d.vals_())
        if q == "dataclasses.asdict":
            return a[0].d.copy()
        if core._cur:
            R().events.append(("ext", q, tuple(a)))
            touched = [x for x in list(a) + list(kw.values()) if isinstance(x, (Inst, IDict, list, ISet))]
            if touched and not q.startswith(("pydantic", "typing")):
                R().taint = R().taint or f"call of {q}"
            if not q.startswith(("pydantic", "typing")):
                return Unk(f"result of {q}")
        return ExtCall(q, a, kw)

    def null_call(self, f, a, kw):
        if f.path.endswith(("getLogger", "getChild", "bind")):
            return Null("logger")
        if f.path.endswith(("isEnabledFor",)):
            return core.R().choose(["logging disabled", "logging enabled"], [0, 1]) == 1 if core._cur else False
        return None

    # ------------------------------------------------------------------ classes
    def setname(self, f, cls):
        pass

    def special_class(self, cls, a, kw):
        w = self.w
        if cls.cache.get("enum") is not None:
            v = conc(a[0])
            if isinstance(v, Inst) and v.cls is cls:
                return v
            for m in cls.cache["enum"].vals_():
                if eq(m.d.get("value"), v):
                    return m
            raise PyRaise(ValueError(f"{show(v)} is not a valid {cls.name}"), w.here())
        nt = cls.cache.get("nt")
        if nt is not None:
            return w.hostcall(nt, *a, **kw)
        hb_ = [b for b in cls.mro if isinstance(b, type) and b in (str, int, float)]
        if hb_ and cls.find("__new__") is None:
            return self.call_type(hb_[0], a, kw)
        if any(isinstance(b, type) and b in (dict, list, set, tuple) for b in cls.mro):
            raise Undecided(f"instance of a container subclass {cls.name}")
        return self.UNBOUND

    def finish_class(self, cls):
        w = self.w
        ext = [b for b in cls.mro if isinstance(b, ExtV)]
        names = [b.q for b in ext]
        direct = [b.q for b in cls.bases if isinstance(b, ExtV)]
        if "typing.NamedTuple" in direct:
            fields = list(cls.ann)
            defaults = [cls.ns[f] for f in fields if f in cls.ns]
            nt = collections.namedtuple(cls.name, fields, defaults=defaults or None)
            nt._classv = cls
            for f in fields:
                cls.ns.pop(f, None)
            cls.ns["_fields"] = tuple(fields)
            cls.ns["_make"] = Wrapped("staticmethod", Meth("_make", lambda xs: nt(*w.iterate(xs))))
            cls.cache["nt"] = nt
            return cls
        if any(n.startswith("enum.") for n in names):
            members = IDict()
            auto = 0
            for k, v in list(cls.ns.items()):
                if k.startswith("_") or isinstance(v, (FuncV, Wrapped, PydDec, Meth)):
                    continue
                if isinstance(v, ExtCall) and v.q == "enum.auto":
                    auto += 1
                    v = k.lower() if "enum.StrEnum" in names else auto
                alias = next((m for m in members.vals_() if m.d.get("value") == v), None)
                if alias is not None:
                    members.set(k, alias)
                    continue
                o = Inst(cls)
                o.d.set("name", k)
                o.d.set("value", v)
                members.set(k, o)
                cls.ns.pop(k)
            base = next((c.cache["enum"] for c in cls.mro[1:] if isinstance(c, ClassV) and c.cache.get("enum")), None)
            if base:
                for k, v in base.live():
                    members.set(k, v)
            cls.cache["enum"] = members
            return cls
        for b in cls.mro[1:]:
            if isinstance(b, ClassV) and "__init_subclass__" in b.ns:
                f = b.ns["__init_subclass__"]
                f = f.f if isinstance(f, Wrapped) else f
                w.call(f, [cls], dict(cls.kwargs))
                break
        return cls

    def is_enum(self, v):
        return isinstance(v, Inst) and v.cls.cache.get("enum") is not None

    def enum_mixin(self, cls):
        for b in cls.mro:
            if isinstance(b, type) and b in (str, int):
                return b
            if isinstance(b, ExtV) and b.q == "enum.StrEnum":
                return str
            if isinstance(b, ExtV) and b.q == "enum.IntEnum":
                return int
        return None

    def dataclass(self, *a, **k):
        if a and isinstance(a[0], ClassV):
            return self.mkdataclass(a[0], {})
        return Meth("dataclass", lambda c: self.mkdataclass(c, k))

    def mkdataclass(self, cls, opts):
        w = self.w
        fields = []
        for c in reversed([c for c in cls.mro if isinstance(c, ClassV)]):
            for k in c.ann:
                ann = ast.unparse(c.ann[k][0])
                if "ClassVar" in ann:
                    continue
                if k in fields:
                    fields.remove(k)
                fields.append(k)
        cls.cache["dataclass"] = fields
        cls.cache["dataclass_eq"] = fields

        def init(self_, *args, **kw):
            if len(args) > len(fields):
                raise TypeError("too many arguments")
            vals = dict(zip(fields, args))
            for n, v in kw.items():
                if n not in fields:
                    raise TypeError(f"unexpected keyword argument {n}")
                vals[n] = v
            for n in fields:
                if n in vals:
                    v = vals[n]
                else:
                    r = cls.find(n)
                    if r is None:
                        raise TypeError(f"missing argument: {n}")
                    v = r[1]
                    if isinstance(v, ExtCall) and v.q == "dataclasses.field":
                        if "default" in v.kwargs:
                            v = v.kwargs["default"]
                        elif "default_factory" in v.kwargs:
                            v = w.call(v.kwargs["default_factory"], [], {})
                        else:
                            raise TypeError(f"missing argument: {n}")
                self_.d.set(n, v)
            p = w.typeattr(cls, "__post_init__")
            if p is not None:
                w.call(p, [self_], {})
        if "__init__" not in cls.ns:
            cls.ns["__init__"] = Meth("__init__", init)
        return cls

    def singledispatch(self, f):
        w = self.w
        reg = []

        def disp(*a, **k):
            t = w.type_(a[0])
            mro = (list(t.mro) if isinstance(t, ClassV) else list(getattr(t, "__mro__", []))) + [object]
            for c in mro:
                for ty, g in reg:
                    if ty is c or ty == c:
                        return w.call(g, list(a), k)
            for ty, g in reg:
                if isinstance(ty, type) and isinstance(t, type) and issubclass(t, ty):
                    return w.call(g, list(a), k)
            return w.call(f, list(a), k)
        m = SD("singledispatch", disp, f)

        def register(ty, g=None):
            if g is not None:
                reg.append((ty, g))
                return g
            if isinstance(ty, FuncV):
                g = ty
                arg = g.node.args.args[0]
                from interp import Env
                e = Env(g.module, parent=g.closure)
                at = w.ev(arg.annotation, e)
                for x in (at.args if isinstance(at, UnionT) else [at]):
                    reg.append((x, g))
                return g

            def deco(g):
                reg.append((ty, g))
                return g
            return Meth("register", deco)
        m.reg = Meth("register", register)
        return m

    # ------------------------------------------------------------------ copying
    def json_dumps(self, v, **k):
        """The text of concrete plain data; any other text is unknown."""
        import json
        if set(k) - {"sort_keys", "ensure_ascii", "indent", "separators"}:
            return Unk("json.dumps")

        def plain(x):
            x = force(x)
            if isinstance(x, IDict):
                return {key(a): plain(b) for a, b in x.live()}
            if isinstance(x, (list, tuple)) and not hasattr(x, "_fields"):
                return [plain(b) for b in x]
            if x is None or type(x) in (str, int, float, bool):
                return x
            if isinstance(x, (Inst, ISet)) or type(x).__name__ == "UrlV":
                py(TypeError, f"Object of type {type(x).__name__} is not JSON serializable")
            raise LookupError

        def key(x):
            x = force(x)
            if x is None or type(x) in (str, int, float, bool):
                return x
            raise LookupError
        try:
            x = plain(v)
            k = {a: plain(b) for a, b in k.items()}
        except LookupError:
            return Unk("json.dumps")
        if "separators" in k and k["separators"] is not None:
            k["separators"] = tuple(k["separators"])
        return self.w.hostcall(lambda: json.dumps(x, **k))

    def json_loads(self, s, **k):
        """The data a JSON text spells, with the hooks of json.loads applied to it."""
        import json
        s = force(s)
        known = {"object_hook", "object_pairs_hook", "parse_float", "parse_int", "parse_constant", "strict"}
        if set(k) - known:
            return Unk("json.loads")
        if type(s) is str:
            x = self.w.hostcall(lambda: json.loads(s))
        elif type(s).__name__ == "J":
            x = s.data
        else:
            return Unk("json.loads")
        hook = {a: (None if conc(k.get(a)) is None else k[a]) for a in known}

        def build(x):
            x = force(x)
            if isinstance(x, (IDict, dict)):
                ps = [(a, build(b)) for a, b in (x.live() if isinstance(x, IDict) else x.items())]
                if hook["object_pairs_hook"] is not None:
                    return self.w.call(hook["object_pairs_hook"], [IList((a, b) for a, b in ps)], {})
                d = IDict(ps)
                return self.w.call(hook["object_hook"], [d], {}) if hook["object_hook"] is not None else d
            if isinstance(x, (list, tuple)):
                return IList(build(b) for b in x)
            if type(x) is float and x == x and abs(x) != float("inf") and hook["parse_float"] is not None:
                return self.w.call(hook["parse_float"], [repr(x)], {})
            if type(x) is int and hook["parse_int"] is not None:
                return self.w.call(hook["parse_int"], [repr(x)], {})
            if not isinstance(x, (int, float)) and hook.get({"int": "parse_int", "float": "parse_float"}.get(core.kind(x))) is not None:
                return Unk("a number read from JSON")
            return x
        return build(x)

    def copy(self, v, deep, memo=None, plain=False):
        """copy.copy / copy.deepcopy; plain: the inherited copy of a model, not an overriding one."""
        memo = {} if memo is None else memo
        v = force(v)
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, Inst) and not plain:
            name = "__deepcopy__" if deep else "__copy__"
            r = v.cls.find(name)
            if r is not None and isinstance(r[1], (FuncV, Wrapped)):
                return self.w.call(self.w.getattr(v, name), [IDict()] if deep else [], {})
        rec = (lambda x: self.copy(x, True, memo)) if deep else (lambda x: x)
        if isinstance(v, IDict):
            d = IDict([(k, rec(x)) for k, x in v.live()], None, v.factory, v.kind)
            return d
        if isinstance(v, ISet):
            return type(v)(list(v))
        if isinstance(v, list):
            return [rec(x) for x in v]
        if isinstance(v, tuple) and not hasattr(v, "_fields"):
            return tuple(rec(x) for x in v)
        if isinstance(v, Inst):
            if v.lazy is not None:
                self.w.pyd.force_fields(v)
            o = Inst(v.cls, path=v.path)
            memo[id(v)] = o
            o.d = IDict([(k, rec(x)) for k, x in v.d.live()])
            o.extra = rec(v.extra) if isinstance(v.extra, IDict) else v.extra
            if not deep and isinstance(v.extra, IDict):
                o.extra = v.extra.copy()
            o.fset = ISet(list(v.fset)) if v.fset is not None else None
            o.private = rec(v.private) if deep or v.private is None else v.private.copy()
            return o
        return v


class SD(Meth):
    __slots__ = ("reg",)


class ChainObj(Proxy):
    __slots__ = ("std",)

    def __init__(self, std):
        self.std = std

    def __call__(self, *xs):
        return self.std.chain(xs)


class UrlV(Proxy):
    """A validated URL value."""

    __slots__ = ("t", "s")

    def __init__(self, t, s):
        self.t, self.s = t, s

    def __eq__(self, o):
        return isinstance(o, UrlV) and o.t == self.t and eq(self.s, o.s)

    def __hash__(self):
        return hash(self.t)


class Suppress:
    def __init__(self, w, ts):
        self.w, self.ts = w, ts

    def sa_enter(self):
        return None

    def sa_exit(self, pr):
        return pr is not None and any(self.w.exc_matches(pr.exc, t) for t in self.ts)


class GenCM:
    def __init__(self, w, gen):
        self.w, self.gen = w, gen

    def sa_enter(self):
        return next(self.gen)

    def sa_exit(self, pr):
        if pr is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise Undecided("generator didn't stop")
        try:
            self.gen.throw(pr)
        except StopIteration:
            return True
        except PyRaise as e:
            if e is pr:
                return False
            raise
        raise Undecided("generator didn't stop after throw")


# ------------------------------------------------------------------ language helpers
def left_quotient(d, w):
    """{s : w+s in d}"""
    st = 0
    for c in w:
        st = d.trans[st][lang.cls_index(c)]
    return lang.minimise(d.trans, d.acc, st)


def right_quotient(d, w):
    """{s : s+w in d}"""
    acc = set()
    for st in range(len(d.trans)):
        x = st
        for c in w:
            x = d.trans[x][lang.cls_index(c)]
        if x in d.acc:
            acc.add(st)
    return lang.minimise(d.trans, frozenset(acc))


def cut_preimage(d, n):
    """{s : s[:-n] in d}"""
    any1 = lang.charset(lang.FULL)
    out = lang.concat(d, *([any1] * n))
    if d.accepts(""):
        for k in range(n):
            out = out | (lang.concat(*([any1] * k)) if k else lang.lit(""))
    return out


def tail_preimage(d, n):
    """{s : s[-n:] in d}"""
    any1 = lang.charset(lang.FULL)
    exact = lang.concat(*([any1] * n))
    out = lang.concat(lang.ALL, d & exact)
    for k in range(n):
        out = out | (d & (lang.concat(*([any1] * k)) if k else lang.lit("")))
    return out


def strip_chars_preimage(d, chars, left, right):
    m = lang.mask(chars)
    ws, no = lang.charset(m), lang.charset(lang.FULL & ~m)
    core_ = d
    if left:
        core_ = core_ & (lang.concat(no, lang.ALL) | lang.lit(""))
    if right:
        core_ = core_ & (lang.concat(lang.ALL, no) | lang.lit(""))
    parts = ([lang.star(ws)] if left else []) + [core_] + ([lang.star(ws)] if right else [])
    return lang.concat(*parts)
