"""Program-level objects of the abstract interpreter: classes, functions, types, instances."""
from __future__ import annotations

from core import IDict, Proxy, PyRaise, Undecided, show


class ExtV(Proxy):
    """A name of an external module, by dotted path."""

    __slots__ = ("q",)

    def __init__(self, q):
        self.q = q

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.q == self.q

    def __hash__(self):
        return hash(("ext", self.q))

    def __repr__(self):
        return self.q

    @property
    def name(self):
        return self.q.rsplit(".", 1)[-1]


class ExtCall(Proxy):
    """The uninterpreted result of calling an external name."""

    __slots__ = ("q", "args", "kwargs")

    def __init__(self, q, args, kwargs):
        self.q, self.args, self.kwargs = q, tuple(args), dict(kwargs)

    def kw(self, n, d=None):
        return self.kwargs.get(n, d)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"{self.q}(...)"


class GenT(Proxy):
    """A subscripted type origin[args]."""

    __slots__ = ("origin", "args")

    def __init__(self, origin, args):
        self.origin, self.args = origin, tuple(args)

    def __eq__(self, o):
        return isinstance(o, GenT) and o.origin == self.origin and o.args == self.args

    def __hash__(self):
        return hash((self.origin, len(self.args)))

    def __repr__(self):
        return f"{tname(self.origin)}[{', '.join(tname(a) for a in self.args)}]"


class UnionT(Proxy):
    __slots__ = ("args",)

    def __init__(self, args):
        flat = []
        for a in args:
            for b in (a.args if isinstance(a, UnionT) else (a,)):
                if b is type(None):
                    b = None
                if b not in flat:
                    flat.append(b)
        self.args = tuple(flat)

    def __eq__(self, o):
        return isinstance(o, UnionT) and len(o.args) == len(self.args) and all(a in o.args for a in self.args)

    def __hash__(self):
        return hash(len(self.args))

    def __repr__(self):
        return " | ".join(tname(a) for a in self.args)


def tname(t):
    if t is None:
        return "None"
    if isinstance(t, type):
        return t.__name__
    if isinstance(t, ClassV):
        return t.name
    if isinstance(t, ExtV):
        return t.name
    return repr(t)


class ClassV(Proxy):
    __slots__ = ("name", "qual", "module", "bases", "ns", "ann", "kwargs", "node", "env", "_mro", "cache", "doc", "params")

    def __init__(self, name, module, bases, node, kwargs):
        self.name, self.module, self.bases, self.node, self.kwargs = name, module, tuple(bases), node, kwargs
        self.qual = f"{module.name}.{name}" if module else name
        self.ns, self.ann = {}, {}
        self.env = None
        self._mro = None
        self.cache = {}
        self.doc = None
        self.params = None

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"<class {self.name}>"

    def __call__(self, *a, **k):
        return WORLD[0].call(self, list(a), k)

    @property
    def mro(self):
        if self._mro is None:
            self._mro = c3(self)
        return self._mro

    def find(self, name, after=None):
        seen = after is None
        for c in self.mro:
            if isinstance(c, ClassV):
                if seen and name in c.ns:
                    return c, c.ns[name]
                if c is after:
                    seen = True
        return None

    def ext_bases(self):
        return [c for c in self.mro if not isinstance(c, ClassV)]

    def is_sub(self, o):
        return any(c is o or c == o for c in self.mro)


WORLD = [None]


def origin_of(b):
    return b.origin if isinstance(b, GenT) else b


def ext_mro(b):
    if isinstance(b, ExtV) and b.q == "pydantic.RootModel":
        return [b, ExtV("pydantic.BaseModel")]
    if isinstance(b, type):
        return [c for c in b.__mro__ if c is not object] or [b]
    return [b]


def c3(cls):
    bases = [origin_of(b) for b in cls.bases]
    seqs = [list(b.mro) if isinstance(b, ClassV) else ext_mro(b) for b in bases] + [list(bases)]
    out = [cls]
    seqs = [s for s in seqs if s]
    while seqs:
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise PyRaise(TypeError("Cannot create a consistent method resolution order"))
        out.append(h)
        seqs = [[x for x in s if not (x is h or x == h)] for s in seqs]
        seqs = [s for s in seqs if s]
    return out


class ModV(Proxy):
    __slots__ = ("name", "path", "ns", "tree", "loaded", "ispkg", "src")

    def __init__(self, name, path, ispkg):
        self.name, self.path, self.ispkg = name, path, ispkg
        self.ns = {"__name__": name, "__file__": str(path)}
        self.loaded = False
        self.tree = None
        self.src = ""

    def __repr__(self):
        return f"<module {self.name}>"


class HMod(Proxy):
    """A module of the standard library."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<module {self.name}>"


class FuncV(Proxy):
    __slots__ = ("node", "module", "closure", "defaults", "kwdefaults", "defcls", "name", "attrs", "info")

    def __init__(self, node, module, closure, defaults, kwdefaults, info):
        self.node, self.module, self.closure = node, module, closure
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.defcls = None
        self.name = getattr(node, "name", "<lambda>")
        self.attrs = None
        self.info = info

    @property
    def qual(self):
        c = f"{self.defcls.name}." if self.defcls else ""
        return f"{self.module.name}.{c}{self.name}"

    @property
    def site(self):
        return f"{self.module.path}:{getattr(self.node, 'lineno', 0)}"

    def __call__(self, *a, **k):
        return WORLD[0].call(self, list(a), k)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"<function {self.qual}>"


class Wrapped(Proxy):
    """staticmethod / classmethod / property / cached_property."""

    __slots__ = ("kind", "f", "extra")

    def __init__(self, kind, f, extra=None):
        self.kind, self.f, self.extra = kind, f, extra or {}

    def __repr__(self):
        return f"<{self.kind} {self.f!r}>"


class PydDec(Proxy):
    """A pydantic decorator applied to a function."""

    __slots__ = ("kind", "args", "kwargs", "f")

    def __init__(self, kind, args, kwargs, f):
        self.kind, self.args, self.kwargs, self.f = kind, args, kwargs, f

    def kw(self, n, d=None):
        return self.kwargs.get(n, d)

    def __repr__(self):
        return f"<{self.kind} {self.f!r}>"


class BoundV(Proxy):
    __slots__ = ("f", "self_")

    def __init__(self, f, self_):
        self.f, self.self_ = f, self_

    def __call__(self, *a, **k):
        return WORLD[0].call(self, list(a), k)

    def __eq__(self, o):
        return isinstance(o, BoundV) and o.f is self.f and o.self_ is self.self_

    def __hash__(self):
        return id(self.f)

    def __repr__(self):
        return f"<bound {self.f!r}>"


class Meth(Proxy):
    """A method of a built-in value, or a modelled function: fn(*args, **kwargs) on the host."""

    __slots__ = ("name", "fn", "self_")

    def __init__(self, name, fn, self_=None):
        self.name, self.fn, self.self_ = name, fn, self_

    def __call__(self, *a, **k):
        return self.fn(*a, **k)

    def __eq__(self, o):
        return isinstance(o, Meth) and o.name == self.name and o.self_ is self.self_

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"<built-in {self.name}>"


class CachedF(Proxy):
    """functools.lru_cache / cache around a function."""

    __slots__ = ("f", "cache")

    def __init__(self, f, label):
        self.f = f
        self.cache = IDict(owner=("global", f"cache of {label}"))

    def __call__(self, *a, **k):
        return WORLD[0].call(self, list(a), k)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f"<cached {self.f!r}>"


class SuperV(Proxy):
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class FieldV(Proxy):
    """FieldInfo of a model field."""

    __slots__ = ("fm",)

    def __init__(self, fm):
        self.fm = fm

    def __eq__(self, o):
        return isinstance(o, FieldV) and o.fm is self.fm

    def __hash__(self):
        return id(self.fm)


class Inst(Proxy):
    """An instance of an analysed class."""

    __slots__ = ("cls", "d", "extra", "fset", "lazy", "path", "owner", "private", "nodict")

    def __init__(self, cls, lazy=None, path=None, owner=None):
        self.cls = cls
        self.d = IDict()
        self.extra = None
        self.fset = None
        self.lazy = lazy
        self.path = path
        self.owner = owner
        self.private = None

    def __repr__(self):
        return f"<{self.cls.name}{' ' + str(self.path) if self.path else ''}>"

    def __call__(self, *a, **k):
        return WORLD[0].call(self, list(a), k)

    def __bool__(self):
        return WORLD[0].truth(self)

    def __eq__(self, o):
        import core
        return core.eq(self, o)

    def __ne__(self, o):
        import core
        return not core.eq(self, o)

    def __hash__(self):
        return WORLD[0].hash_(self)

    def __iter__(self):
        return WORLD[0].iterate(self)

    def __len__(self):
        return WORLD[0].len_(self)

    def __contains__(self, x):
        return WORLD[0].contains(self, x)

    def __getitem__(self, k):
        return WORLD[0].getitem(self, k)

    def __lt__(self, o):
        return WORLD[0].binary_dunder("__lt__", "__gt__", self, o)

    def __gt__(self, o):
        return WORLD[0].binary_dunder("__gt__", "__lt__", self, o)

    def __le__(self, o):
        return WORLD[0].binary_dunder("__le__", "__ge__", self, o)

    def __ge__(self, o):
        return WORLD[0].binary_dunder("__ge__", "__le__", self, o)
