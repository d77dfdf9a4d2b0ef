"""Abstract interpretation of the analysed package's syntax trees.

Nothing of the analysed package is imported or executed: its modules are parsed, and the
interpreter below evaluates the syntax trees over the abstract values of `core`.  Names of
third-party packages stay symbolic (`ExtV`, `ExtCall`); pydantic's behaviour is modelled in
`pyd`.
"""
from __future__ import annotations

import ast
import builtins as hb
import operator
import os
import sys
import traceback
import types

import core
import purity
from core import *  # noqa: F403
from core import R, IDict, ISet, FSet, IList, IView, OStr, Sym, Der, IntOf, LenOf, SYMS, Unk, Null, PyRaise, Undecided, Stop, Diverges
from core import raw_any, conc, force, eq, truth, compare, mk, raw, amb, show, plain, kind, MISSING
from objs import *  # noqa: F403
from objs import WORLD, ExtV, ExtCall, GenT, UnionT, ClassV, ModV, HMod, FuncV, Wrapped, PydDec, BoundV, Meth, CachedF, SuperV, FieldV, Inst, tname

HERE = os.path.dirname(os.path.abspath(__file__))
BRK, CONT = ("brk",), ("cont",)
UNBOUND = object()


GAP = "\ufffc"


class Text(Unk):
    """Text built for humans out of abstract values; `known` has GAP where a part is not known."""

    __slots__ = ("known",)

    def __init__(self, why="", known=GAP):
        super().__init__(why)
        self.known = known


class Env:
    __slots__ = ("vars", "parent", "module", "info", "func", "cls")

    def __init__(self, module, parent=None, info=None, func=None, cls=None):
        self.vars, self.parent, self.module, self.info, self.func, self.cls = {}, parent, module, info, func, cls


class FInfo:
    """Static facts about a function body."""

    __slots__ = ("locals", "globals", "nonlocals", "isgen", "cls")

    def __init__(self, node):
        self.locals, self.globals, self.nonlocals, self.isgen = set(), set(), set(), False
        self.cls = None
        if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                self.locals.add(x.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            self.scan(s)
        self.locals -= self.globals | self.nonlocals

    def scan(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            for d in n.decorator_list:
                self.scan(d)
            if isinstance(n, ast.ClassDef):
                for b in n.bases:
                    self.scan(b)
            else:
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    self.scan(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.isgen = True
        if isinstance(n, ast.Global):
            self.globals.update(n.names)
        if isinstance(n, ast.Nonlocal):
            self.nonlocals.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                self.locals.add((a.asname or a.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            self.locals.add(n.name)
        if isinstance(n, ast.MatchMapping) and n.rest:
            self.locals.add(n.rest)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            self.comp(n)
            return
        for c in ast.iter_child_nodes(n):
            self.scan(c)

    def comp(self, n):
        # only walrus targets leak; the first iterable belongs to the enclosing scope
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.locals.add(x.target.id)
        self.scan(n.generators[0].iter)


def has_yield(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)) and x is not n:
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


def memo_key(v, ren):
    """A key for values without abstract content; keys of any spelling are numbered in the
    order they occur (recorded in ren)."""
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, str):
        return ("s", v)
    if type(v) in (int, float):
        return (type(v).__name__, v)
    if isinstance(v, OStr):
        s = raw(v)
        if s != v.s:
            return memo_key(mk(s), ren)
        return ("o", memo_ren(s, ren))
    if type(v) in (list, IList, tuple):
        if getattr(v, "owner", None) is not None:
            return MISSING
        out = ["t" if type(v) is tuple else "l"]
        for x in v:
            k = memo_key(x, ren)
            if k is MISSING:
                return MISSING
            out.append(k)
        return tuple(out)
    return MISSING


def memo_ren(s, ren):
    for c in s:
        if core.is_key(c) and c not in ren:
            ren[c] = chr(0xE000 + len(ren))
    return s.translate({ord(a): b for a, b in ren.items()})


def memo_copy(v, ren, store=False):
    if isinstance(v, OStr):
        s = v.s if not store else raw_any(v)
        s = s.translate({ord(a): b for a, b in ren.items()})
        return OStr(s) if store else mk(s)
    if type(v) in (list, IList):
        return IList([memo_copy(x, ren, store) for x in v])
    if type(v) is tuple:
        return tuple(memo_copy(x, ren, store) for x in v)
    return v


def py(cls, *args):
    raise PyRaise(cls(*args), WORLD[0].here())


class SuperProxyMissing(Exception):
    pass


_BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
        ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.LShift: operator.lshift,
        ast.RShift: operator.rshift, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.BitAnd: operator.and_,
        ast.MatMult: operator.matmul}
_BINDUNDER = {ast.Add: ("__add__", "__radd__", "__iadd__"), ast.Sub: ("__sub__", "__rsub__", "__isub__"), ast.Mult: ("__mul__", "__rmul__", "__imul__"),
              ast.Mod: ("__mod__", "__rmod__", "__imod__"), ast.BitOr: ("__or__", "__ror__", "__ior__"), ast.BitAnd: ("__and__", "__rand__", "__iand__"),
              ast.BitXor: ("__xor__", "__rxor__", "__ixor__"), ast.Div: ("__truediv__", "__rtruediv__", "__itruediv__"),
              ast.FloorDiv: ("__floordiv__", "__rfloordiv__", "__ifloordiv__")}
_CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
_CMPD = {"<": ("__lt__", "__gt__"), "<=": ("__le__", "__ge__"), ">": ("__gt__", "__lt__"), ">=": ("__ge__", "__le__")}

HOST_MODULES = {"re", "fnmatch", "functools", "itertools", "operator", "string", "math", "collections", "collections.abc", "contextlib",
                "copy", "types", "abc", "enum", "dataclasses", "json", "textwrap", "urllib.parse", "urllib", "keyword", "numbers", "datetime",
                "inspect", "sys", "os", "warnings", "typing", "time", "weakref", "threading", "builtins", "ipaddress", "decimal", "uuid", "hashlib",
                "posixpath", "ntpath", "os.path", "bisect", "html", "shlex", "difflib", "base64", "binascii", "struct", "secrets", "heapq", "unicodedata", "random"}
NULL_MODULES = {"logging", "warnings"}


class World:
    def __init__(self, root, package="asyncapi3"):
        self.root, self.package = root, package
        self.modules = {}
        self.depth = 0
        self.maxdepth = 900
        self.memo = {}  # results of pure functions on fixed arguments; None = off
        self.purity = {}
        self.idpath = None
        self.site_stack = []
        self.strconsts = {}
        core.consts = self.consts
        self.frozen = False
        self.finfo = {}
        self.loading = []
        self.analysed_functions = set()
        self.strict_model_calls = None
        self.models = {}
        WORLD[0] = self
        import std
        import pyd
        self.std = std.Std(self)
        self.pyd = pyd.Pyd(self)
        self.hooks = {}
        core._obj_eq = self.obj_eq
        core._len_hook = self.truth
        core._hash_hook = self.hash_check
        self.dispatch_e = {}
        self.dispatch_x = {}
        for k in dir(self):
            if k.startswith("e_"):
                self.dispatch_e[getattr(ast, k[2:])] = getattr(self, k)
            elif k.startswith("x_"):
                self.dispatch_x[getattr(ast, k[2:])] = getattr(self, k)

    # ------------------------------------------------------------------ modules
    def find_module(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None

    def load(self, name) -> ModV:
        if name in self.modules:
            return self.modules[name]
        f = self.find_module(name)
        if f is None:
            py(ModuleNotFoundError, f"No module named '{name}'")
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        m = ModV(name, f[0], f[1])
        self.modules[name] = m
        with open(f[0], encoding="utf-8") as fh:
            m.src = fh.read()
        try:
            m.tree = ast.parse(m.src, f[0])
        except SyntaxError as e:
            raise Undecided(f"syntax error in {f[0]}: {e}")
        env = Env(m)
        env.vars = m.ns
        m.ns["__annotations__"] = IDict()
        self.block(m.tree.body, env)
        m.loaded = True
        if "." in name:
            parent.ns.setdefault(name.rsplit(".", 1)[1], m)
        return m

    def load_source(self, name, src):
        """A module of our own (stand-ins used in obligations)."""
        if name in self.modules:
            return self.modules[name]
        m = ModV(name, f"<{name}>", False)
        m.src = src
        m.tree = ast.parse(src)
        env = Env(m)
        env.vars = m.ns
        m.ns["__annotations__"] = IDict()
        self.modules[name] = m
        frozen, self.frozen = self.frozen, False
        try:
            self.block(m.tree.body, env)
        finally:
            self.frozen = frozen
        m.loaded = True
        return m

    def load_all(self):
        base = os.path.join(self.root, self.package)
        if not os.path.isdir(base):
            raise AnchorLost(f"package {self.package} not found in {self.root}")
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(dp, f), self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    if rel.endswith("__main__"):
                        continue
                    self.load(rel)
        self.freeze()

    def freeze(self):
        """From here on, writes to module-level containers are recorded."""
        self.frozen = True
        seen = set()
        def mark(v, label, depth=0):
            if id(v) in seen or depth > 4:
                return v
            seen.add(id(v))
            if isinstance(v, (IDict, ISet)):
                if v.owner is None:
                    v.owner = ("global", label)
                for x in (v.vals_() if isinstance(v, IDict) else []):
                    mark(x, label, depth + 1)
            elif isinstance(v, Inst):
                if v.owner is None:
                    v.owner = ("global", label)
                if not isinstance(v.d, IDict):
                    return v
                for x in v.d.vals_():
                    mark(x, label, depth + 1)
            elif isinstance(v, IList):
                if v.owner is None:
                    v.owner = ("global", label)
                for x in v:
                    mark(x, label, depth + 1)
            elif isinstance(v, tuple):
                for x in v:
                    mark(x, label, depth + 1)
            elif isinstance(v, ClassV):
                for k, x in v.ns.items():
                    mark(x, f"{v.qual}.{k}", depth + 1)
            elif isinstance(v, FuncV):
                for k, x in enumerate(list(v.defaults) + list(v.kwdefaults.values())):
                    mark(x, f"default argument of {v.qual}", depth + 1)
                e = v.closure
                while e is not None:
                    for k, x in e.vars.items():
                        mark(x, f"closure of {v.qual}: {k}", depth + 1)
                    e = e.parent
            elif isinstance(v, (Wrapped, PydDec)):
                mark(v.f, label, depth + 1)
            elif isinstance(v, BoundV):
                mark(v.f, label, depth + 1)
                mark(v.self_, label, depth + 1)
            return v
        for m in self.modules.values():
            for k, v in m.ns.items():
                mark(v, f"{m.name}.{k}")

    # ------------------------------------------------------------------ bookkeeping
    def consts(self):
        """Short string constants of the function being analysed, and of the module constants it names."""
        f = self.site_stack[-1][0] if self.site_stack else None
        if not isinstance(f, FuncV):
            return ()
        r = self.strconsts.get(id(f.node))
        if r is None:
            r = []

            def add(v, depth=0):
                if isinstance(v, str) and 0 < len(v) <= 16:
                    r.append(v)
                elif isinstance(v, (list, tuple, ISet, FSet)) and depth < 2 and len(v) <= 12:
                    for x in v:
                        add(x, depth + 1)
            body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
            for st in body:
                for x in ast.walk(st):
                    if isinstance(x, ast.Constant):
                        add(x.value)
                    elif isinstance(x, ast.Name):
                        add(f.module.ns.get(x.id))
            r = self.strconsts[id(f.node)] = list(dict.fromkeys(r))[:16]
        return r

    def sizes(self, *prefixes, lo=3, hi=130):
        """Integer constants in the modules with these names, as numbers of entries worth trying."""
        out = set()
        for m in self.modules.values():
            if m.tree is not None and any(m.name == p or m.name.startswith(p + ".") for p in prefixes):
                out |= {x.value for x in ast.walk(m.tree) if isinstance(x, ast.Constant) and type(x.value) is int and lo <= x.value <= hi}
        return sorted(out)[:6] if hi <= 600 else sorted(out)

    def words(self, *prefixes, ok=None):
        """String constants that modules with these names compare values with or look for."""
        out = []
        for m in self.modules.values():
            if m.tree is None or not any(m.name == p or m.name.startswith(p + ".") for p in prefixes):
                continue
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Compare):
                    src = [x.left, *x.comparators]
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("startswith", "endswith", "get", "pop", "count", "find", "removeprefix", "removesuffix", "split", "partition", "rpartition", "replace", "strip", "lstrip", "rstrip"):
                    src = x.args
                elif isinstance(x, ast.MatchValue):
                    src = [x.value]
                else:
                    continue
                for y in src:
                    for c in ast.walk(y):
                        if isinstance(c, ast.Constant) and isinstance(c.value, str) and c.value not in out and (ok is None or ok(c.value)):
                            out.append(c.value)
        return out[:12]

    def here(self):
        if not self.site_stack:
            return "?"
        f, n = self.site_stack[-1]
        path = f.module.path if f is not None else "?"
        return f"{os.path.relpath(path, self.root)}:{getattr(n, 'lineno', '?')} in {f.qual if isinstance(f, FuncV) else f.module.name}"

    def callpath(self):
        out = []
        for f, n in self.site_stack:
            out.append(f"{f.qual}:{getattr(n, 'lineno', '?')}")
        return out

    def hostcall(self, fn, *a, **k):
        """Apply a host function; exceptions it raises are the program's exceptions."""
        try:
            return fn(*a, **k)
        except (PyRaise, Stop, GeneratorExit, KeyboardInterrupt, StopIteration):
            raise
        except RecursionError as e:
            raise PyRaise(RecursionError("maximum recursion depth exceeded"), self.here())
        except Exception as e:
            if isinstance(e, (AttributeError, NameError, ImportError, AssertionError)):
                tb = traceback.extract_tb(e.__traceback__)
                if tb and tb[-1].filename.startswith(HERE) and tb[-1].name != "hostcall":
                    if os.environ.get("SA_DEBUG"):
                        traceback.print_exc()
                    raise Undecided(f"internal: {type(e).__name__}: {e} at {tb[-1].name}:{tb[-1].lineno}")
            elif os.environ.get("SA_DEBUG") == "2":
                traceback.print_exc()
            raise PyRaise(e, self.here()) from e

    # ------------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            r = self.exec(s, env)
            if r is not None:
                return r
        return None

    def exec(self, s, env):
        if core._cur:
            run = core._cur[-1]
            run.steps += 1
            if run.steps > run.max_steps:
                raise Diverges(f"more than {run.max_steps} statements at {self.here()}")
        if self.site_stack:
            self.site_stack[-1][1] = s
        h = self.dispatch_x.get(type(s))
        if h is None:
            raise Undecided(f"statement {type(s).__name__} at {self.here()}")
        return h(s, env)

    def x_Expr(self, s, env):
        self.ev(s.value, env)

    def x_Pass(self, s, env):
        return None

    def x_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if env.cls is not None and isinstance(s.target, ast.Name):
            env.cls.ann[s.target.id] = (s.annotation, env)
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            self.store(t.id, self.binop(s.op, cur, self.ev(s.value, env), True), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.binop(s.op, cur, self.ev(s.value, env), True))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.binop(s.op, cur, self.ev(s.value, env), True))
        else:
            raise Undecided("augmented assignment")

    def x_Return(self, s, env):
        return ("ret", self.ev(s.value, env) if s.value is not None else None)

    def x_If(self, s, env):
        return self.block(s.body if truth(self.ev(s.test, env)) else s.orelse, env)

    def x_While(self, s, env):
        while truth(self.ev(s.test, env)):
            r = self.block(s.body, env)
            if r is BRK:
                return None
            if r is not None and r is not CONT:
                return r
            if core._cur:
                core._cur[-1].steps += 1
                if core._cur[-1].steps > core._cur[-1].max_steps:
                    raise Diverges(f"loop at {self.here()}")
        return self.block(s.orelse, env)

    def x_For(self, s, env):
        it = self.iterate(self.ev(s.iter, env))
        while True:
            x = self.next_(it)
            if x is UNBOUND:
                break
            self.assign(s.target, x, env)
            r = self.block(s.body, env)
            if r is BRK:
                self.close(it)
                return None
            if r is not None and r is not CONT:
                self.close(it)
                return r
        return self.block(s.orelse, env)

    def close(self, it):
        return None

    def next_(self, it):
        try:
            return self.hostcall(next, it)
        except StopIteration:
            return UNBOUND

    def x_Break(self, s, env):
        return BRK

    def x_Continue(self, s, env):
        return CONT

    def x_Global(self, s, env):
        return None

    x_Nonlocal = x_Global

    def x_Assert(self, s, env):
        if not truth(self.ev(s.test, env)):
            py(AssertionError, *([self.ev(s.msg, env)] if s.msg else []))

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in env.vars:
                    py(NameError, t.id)
                del env.vars[t.id]
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev(t.slice, env))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, env), t.attr)
            elif isinstance(t, ast.Tuple):
                for e in t.elts:
                    self.x_Delete(ast.Delete([e]), env)

    def x_Raise(self, s, env):
        if s.exc is None:
            h = getattr(self, "handling", [])
            if not h:
                py(RuntimeError, "No active exception to reraise")
            raise PyRaise(h[-1].exc, h[-1].site)
        v = conc(self.ev(s.exc, env))
        if s.cause is not None:
            self.ev(s.cause, env)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = v()
        elif isinstance(v, ClassV):
            v = self.call(v, [], {})
        if isinstance(v, Unk):
            raise Undecided(f"raise of an unknown value at {self.here()}")
        if not isinstance(v, BaseException) and not (isinstance(v, Inst) and self.exc_base(v.cls)):
            py(TypeError, "exceptions must derive from BaseException")
        raise PyRaise(v, self.here())

    def exc_base(self, cls):
        for b in cls.mro:
            if isinstance(b, type) and issubclass(b, BaseException):
                return b
        return None

    def exc_matches(self, exc, t) -> bool:
        t = conc(t)
        if isinstance(t, tuple):
            return any(self.exc_matches(exc, x) for x in t)
        if isinstance(t, Unk):
            return core.unk_bool("exception type")
        if isinstance(t, ExtV):
            t = self.std.exc_type(t.q)
        if isinstance(exc, BaseException):
            return isinstance(t, type) and isinstance(exc, t)
        if isinstance(t, ClassV):
            return exc.cls.is_sub(t)
        return isinstance(t, type) and any(isinstance(b, type) and issubclass(b, t) for b in exc.cls.mro)

    def x_Try(self, s, env):
        if not hasattr(self, "handling"):
            self.handling = []
        sig = None
        pend = None
        depth, nst = self.depth, len(self.site_stack)
        try:
            try:
                sig = self.block(s.body, env)
            except PyRaise as pr:
                self.depth = depth
                del self.site_stack[nst:]
                for h in s.handlers:
                    if h.type is None or self.exc_matches(pr.exc, self.ev(h.type, env)):
                        if h.name:
                            self.store(h.name, pr.exc, env)
                        self.handling.append(pr)
                        try:
                            sig = self.block(h.body, env)
                        finally:
                            self.handling.pop()
                            if h.name:
                                self.unstore(h.name, env)
                        break
                else:
                    raise
            else:
                if sig is None:
                    sig = self.block(s.orelse, env)
        except PyRaise as pr:
            pend = pr
        if s.finalbody:
            self.depth = depth
            del self.site_stack[nst:]
            r = self.block(s.finalbody, env)
            if r is not None:
                return r
        if pend is not None:
            raise pend
        return sig

    x_TryStar = None

    def unstore(self, name, env):
        env.vars.pop(name, None)

    def x_With(self, s, env):
        return self.with_items(s.items, 0, s.body, env, None)

    def with_items(self, items, i, body, env, runner):
        if i == len(items):
            return self.block(body, env)
        it = items[i]
        cm = conc(self.ev(it.context_expr, env))
        ent, ex = self.ctx(cm)
        v = ent()
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        depth, nst = self.depth, len(self.site_stack)
        try:
            sig = self.with_items(items, i + 1, body, env, runner)
        except PyRaise as pr:
            self.depth = depth
            del self.site_stack[nst:]
            if truth(ex(pr)):
                return None
            raise
        ex(None)
        return sig

    def ctx(self, cm):
        if isinstance(cm, Null):
            return (lambda: cm), (lambda pr: False)
        if isinstance(cm, Inst):
            t = cm.cls

            def exit_(pr):
                a = [None, None, None] if pr is None else [self.type_(pr.exc), pr.exc, None]
                return self.call(self.getattr(cm, "__exit__"), a, {})
            return (lambda: self.call(self.getattr(cm, "__enter__"), [], {})), exit_
        if hasattr(cm, "sa_enter"):
            return cm.sa_enter, cm.sa_exit
        if hasattr(type(cm), "__enter__"):
            def exit_(pr):
                if pr is None:
                    return self.hostcall(cm.__exit__, None, None, None)
                return self.hostcall(cm.__exit__, type(pr), pr, None)
            return (lambda: self.hostcall(cm.__enter__)), exit_
        if isinstance(cm, Unk):
            raise Undecided("with on an unknown value")
        py(TypeError, "not a context manager")

    def x_Import(self, s, env):
        for a in s.names:
            m = self.import_(a.name)
            if a.asname:
                self.store(a.asname, m, env)
            else:
                self.store(a.name.split(".")[0], self.import_(a.name.split(".")[0]), env)

    def import_(self, name):
        top = name.split(".")[0]
        if top == self.package:
            return self.load(name)
        return self.std.module(name)

    def x_ImportFrom(self, s, env):
        name = s.module or ""
        if s.level:
            base = env.module.name if env.module.ispkg else env.module.name.rsplit(".", 1)[0]
            for _ in range(s.level - 1):
                base = base.rsplit(".", 1)[0]
            name = base + ("." + name if name else "")
        if name == "__future__":
            return
        m = self.import_(name)
        for a in s.names:
            if a.name == "*":
                allv = m.ns.get("__all__")
                names = list(allv) if allv is not None else [k for k in m.ns if not k.startswith("_")]
                for k in names:
                    self.store(k, m.ns[k], env)
                continue
            if isinstance(m, ModV):
                if a.name in m.ns:
                    v = m.ns[a.name]
                elif self.find_module(f"{name}.{a.name}"):
                    v = self.load(f"{name}.{a.name}")
                else:
                    py(ImportError, f"cannot import name '{a.name}' from '{name}'")
            else:
                v = self.std.attr(m, a.name)
            self.store(a.asname or a.name, v, env)

    def x_FunctionDef(self, s, env):
        f = self.mkfunc(s, env)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d, env), v)
        self.store(s.name, v, env)

    def decorate(self, d, v):
        d = conc(d)
        return self.call(d, [v], {})

    def mkfunc(self, s, env):
        a = s.args
        defaults = [self.ev(x, env) for x in a.defaults]
        kwd = {x.arg: self.ev(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        info = self.finfo.get(s)
        if info is None:
            info = self.finfo[s] = FInfo(s)
        clo = env
        while clo is not None and clo.cls is not None:
            clo = clo.parent
        if clo is not None and clo.vars is clo.module.ns:
            clo = None
        f = FuncV(s, env.module, clo, defaults, kwd, info)
        if env.cls is not None:
            f.defcls = env.cls
        elif env.func is not None and env.func.defcls is not None:
            f.defcls = None
        if self.frozen:
            pass
        return f

    def x_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        kw = {k.arg: self.ev(k.value, env) for k in s.keywords if k.arg}
        v = self.mkclass(s.name, bases, kw, s, env)
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d, env), v)
        self.store(s.name, v, env)

    def mkclass(self, name, bases, kw, node, env):
        bases = [conc(b) for b in bases]
        cls = ClassV(name, env.module, [b for b in bases if b is not object], node, kw)
        cls.doc = ast.get_docstring(node) if node is not None else None
        par = env
        e = Env(env.module, parent=None if (par.vars is par.module.ns) else par, cls=cls)
        e.vars = cls.ns
        cls.env = e
        cls.ns["__module__"] = env.module.name
        cls.ns["__qualname__"] = name
        if cls.doc is not None:
            cls.ns["__doc__"] = cls.doc
        if node is not None:
            self.block(node.body, e)
        for k, f in cls.ns.items():
            self.std.setname(f, cls)
        return self.std.finish_class(cls)

    def x_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.match(c.pattern, v, env) and (c.guard is None or truth(self.ev(c.guard, env))):
                return self.block(c.body, env)
        return None

    def match(self, p, v, env) -> bool:
        if isinstance(p, ast.MatchValue):
            return self.equal(v, self.ev(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                self.store(p.name, v, env)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchClass):
            t = self.ev(p.cls, env)
            if not self.isinstance_(v, t):
                return False
            v = conc(v)
            names = []
            if p.patterns:
                if isinstance(t, type) and t in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple):
                    return self.match(p.patterns[0], v, env)
                ma = self.getattr(t, "__match_args__", None)
                if ma is None:
                    py(TypeError, f"{tname(t)}() accepts 0 positional sub-patterns")
                names = list(self.iterate(ma))[: len(p.patterns)]
            for n, q in list(zip(names, p.patterns)) + list(zip(p.kwd_attrs, p.kwd_patterns)):
                x = self.getattr(v, n, MISSING)
                if x is MISSING or not self.match(q, x, env):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            v = conc(v)
            if not isinstance(v, (list, tuple)):
                return False
            items = list(v)
            st = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not st:
                return len(items) == len(p.patterns) and all(self.match(q, x, env) for q, x in zip(p.patterns, items))
            i = st[0]
            tail = len(p.patterns) - i - 1
            if len(items) < i + tail:
                return False
            if not all(self.match(q, x, env) for q, x in zip(p.patterns[:i], items[:i])):
                return False
            if p.patterns[i].name:
                self.store(p.patterns[i].name, items[i:len(items) - tail], env)
            return all(self.match(q, x, env) for q, x in zip(p.patterns[i + 1:], items[len(items) - tail:]))
        if isinstance(p, ast.MatchMapping):
            v = conc(v)
            if not isinstance(v, IDict):
                return False
            used = []
            for k, q in zip(p.keys, p.patterns):
                kv = self.ev(k, env)
                i = v.find(kv)
                if i is None or not self.match(q, v.pairs[i][1], env):
                    return False
                used.append(i)
            if p.rest:
                self.store(p.rest, IDict([x for i, x in enumerate(v.pairs) if x is not None and i not in used]), env)
            return True
        raise Undecided(f"pattern {type(p).__name__}")

    # ------------------------------------------------------------------ generators
    def gblock(self, stmts, env):
        for s in stmts:
            if has_yield(s):
                r = yield from self.gexec(s, env)
            else:
                r = self.exec(s, env)
            if r is not None:
                return r
        return None

    def gexpr(self, n, env):
        """Evaluate an expression that contains yields in simple positions."""
        if isinstance(n, ast.Yield):
            v = self.ev(n.value, env) if n.value is not None else None
            st = self.suspend()
            r = yield v
            self.resume(st)
            return r
        if isinstance(n, ast.YieldFrom):
            it = self.iterate(self.ev(n.value, env))
            if isinstance(it, types.GeneratorType):
                st = self.suspend()
                r = yield from it
                self.resume(st)
                return r
            while True:
                x = self.next_(it)
                if x is UNBOUND:
                    return None
                st = self.suspend()
                yield x
                self.resume(st)
        if not has_yield(n):
            return self.ev(n, env)
        raise Undecided(f"yield inside {type(n).__name__}")

    def suspend(self):
        return None

    def resume(self, st):
        return None

    def gexec(self, s, env):
        if core._cur:
            core._cur[-1].steps += 1
        if isinstance(s, ast.Expr):
            yield from self.gexpr(s.value, env)
            return None
        if isinstance(s, ast.Assign):
            v = yield from self.gexpr(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
            return None
        if isinstance(s, ast.AnnAssign):
            v = yield from self.gexpr(s.value, env)
            self.assign(s.target, v, env)
            return None
        if isinstance(s, ast.Return):
            v = yield from self.gexpr(s.value, env)
            return ("ret", v)
        if isinstance(s, ast.If):
            if has_yield(s.test):
                t = yield from self.gexpr(s.test, env)
            else:
                t = self.ev(s.test, env)
            return (yield from self.gblock(s.body if truth(t) else s.orelse, env))
        if isinstance(s, ast.While):
            while truth(self.ev(s.test, env)):
                r = yield from self.gblock(s.body, env)
                if r is BRK:
                    return None
                if r is not None and r is not CONT:
                    return r
            return (yield from self.gblock(s.orelse, env))
        if isinstance(s, ast.For):
            it = self.iterate(self.ev(s.iter, env))
            while True:
                x = self.next_(it)
                if x is UNBOUND:
                    break
                self.assign(s.target, x, env)
                r = yield from self.gblock(s.body, env)
                if r is BRK:
                    return None
                if r is not None and r is not CONT:
                    return r
            return (yield from self.gblock(s.orelse, env))
        if isinstance(s, ast.Try):
            if not hasattr(self, "handling"):
                self.handling = []
            sig, pend = None, None
            try:
                try:
                    sig = yield from self.gblock(s.body, env)
                except PyRaise as pr:
                    for h in s.handlers:
                        if h.type is None or self.exc_matches(pr.exc, self.ev(h.type, env)):
                            if h.name:
                                self.store(h.name, pr.exc, env)
                            self.handling.append(pr)
                            try:
                                sig = yield from self.gblock(h.body, env)
                            finally:
                                self.handling.pop()
                            break
                    else:
                        raise
                else:
                    if sig is None:
                        sig = yield from self.gblock(s.orelse, env)
            except PyRaise as pr:
                pend = pr
            except GeneratorExit:
                self.block(s.finalbody, env)
                raise
            r = yield from self.gblock(s.finalbody, env)
            if r is not None:
                return r
            if pend is not None:
                raise pend
            return sig
        if isinstance(s, ast.With):
            if len(s.items) != 1:
                raise Undecided("yield in a multi-item with")
            it = s.items[0]
            ent, ex = self.ctx(conc(self.ev(it.context_expr, env)))
            v = ent()
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            try:
                sig = yield from self.gblock(s.body, env)
            except PyRaise as pr:
                if truth(ex(pr)):
                    return None
                raise
            ex(None)
            return sig
        if isinstance(s, ast.Match):
            v = self.ev(s.subject, env)
            for c in s.cases:
                if self.match(c.pattern, v, env) and (c.guard is None or truth(self.ev(c.guard, env))):
                    return (yield from self.gblock(c.body, env))
            return None
        raise Undecided(f"yield inside {type(s).__name__}")

    def rungen(self, f, env):
        def gen():
            try:
                r = yield from self.gblock(f.node.body, env)
            finally:
                pass
            return r[1] if r is not None else None
        return gen()

    # ------------------------------------------------------------------ names
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            if e.info is not None and name in e.info.locals:
                py(UnboundLocalError, f"cannot access local variable '{name}'")
            if e.info is not None and name in e.info.globals:
                break
            e = e.parent
        ns = env.module.ns
        if name in ns:
            return ns[name]
        b = self.std.builtin(name)
        if b is not UNBOUND:
            return b
        if name == "__class__":
            f = self.method_env(env)
            if f is not None:
                return f.func.defcls
        py(NameError, f"name '{name}' is not defined")

    def store(self, name, v, env):
        e = env
        if e.info is not None:
            if name in e.info.globals:
                self.store_global(e.module, name, v)
                return
            if name in e.info.nonlocals:
                p = e.parent
                while p is not None:
                    if name in p.vars or (p.info is not None and name in p.info.locals):
                        if self.frozen and core._cur:
                            self.event(("nonlocal", name))
                            old = p.vars.get(name, MISSING)
                            core._cur[-1].undo.append(lambda: p.vars.__setitem__(name, old) if old is not MISSING else p.vars.pop(name, None))
                        p.vars[name] = v
                        return
                    p = p.parent
        if e.vars is e.module.ns and self.frozen and e.cls is None:
            self.store_global(e.module, name, v)
            return
        if not self.frozen:
            v = self.track_static(v)
        e.vars[name] = v

    def track_static(self, v):
        """Module- and class-level containers become tracked objects."""
        if type(v) is list:
            v2 = IList(v)
            return v2
        return v

    def store_global(self, m, name, v):
        if core._cur and self.frozen:
            old = m.ns.get(name, MISSING)
            R().undo.append(lambda: m.ns.__setitem__(name, old) if old is not MISSING else m.ns.pop(name, None))
            R().events.append(("mutate", ("global", f"{m.name}.{name}"), ("assign",)))
        m.ns[name] = v

    def event(self, e):
        if core._cur:
            R().events.append(e)

    def method_env(self, env):
        e = env
        while e is not None:
            if e.func is not None and e.func.defcls is not None:
                return e
            e = e.parent
        return None

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, list(self.iterate(v)), env)
        else:
            raise Undecided("assignment target")

    def unpack(self, elts, v, env):
        v = conc(v)
        if isinstance(v, Unk):
            for e in elts:
                self.assign(e.value if isinstance(e, ast.Starred) else e, Unk("part of " + v.why), env)
            return
        if v is None or isinstance(v, (bool, int, float)):
            py(TypeError, f"cannot unpack non-iterable {type(v).__name__} object")
        items = list(self.iterate(v))
        st = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if st:
            i = st[0]
            tail = len(elts) - i - 1
            if len(items) < i + tail:
                py(ValueError, "not enough values to unpack")
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x, env)
            self.assign(elts[i].value, items[i: len(items) - tail], env)
            for e, x in zip(elts[i + 1:], items[len(items) - tail:]):
                self.assign(e, x, env)
            return
        if len(items) != len(elts):
            py(ValueError, f"{'too many' if len(items) > len(elts) else 'not enough'} values to unpack (expected {len(elts)}, got {len(items)})")
        for e, x in zip(elts, items):
            self.assign(e, x, env)

    # ------------------------------------------------------------------ expressions
    def ev(self, n, env):
        h = self.dispatch_e.get(type(n))
        if h is None:
            raise Undecided(f"expression {type(n).__name__} at {self.here()}")
        return h(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        k = self.ev(n.slice, env)
        return self.getitem(o, k)

    def e_Slice(self, n, env):
        g = lambda x: None if x is None else self.ev(x, env)
        return slice(g(n.lower), g(n.upper), g(n.step))

    def e_List(self, n, env):
        return self.elts(n.elts, env)

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def e_Set(self, n, env):
        return ISet(self.elts(n.elts, env))

    def elts(self, es, env):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value, env)))
            else:
                out.append(self.ev(e, env))
        return out

    def e_Dict(self, n, env):
        d = IDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.std.dict_update(d, self.ev(v, env))
            else:
                kk = self.ev(k, env)
                self.hostcall(d.set, kk, self.ev(v, env))
        return d

    def e_BoolOp(self, n, env):
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, env)
            if i == len(n.values) - 1:
                return v
            t = truth(v)
            v = force(v)
            if isinstance(n.op, ast.And) and not t:
                return v
            if isinstance(n.op, ast.Or) and t:
                return v
        return v

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return not truth(v)
        v = conc(v)
        if isinstance(v, Unk):
            return Unk("arithmetic")
        if isinstance(v, SYMS):
            v = core.concretize(v)
        if isinstance(n.op, ast.USub):
            return self.hostcall(operator.neg, v)
        if isinstance(n.op, ast.UAdd):
            return self.hostcall(operator.pos, v)
        return self.hostcall(operator.invert, v)

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(n.op, a, b)

    def e_IfExp(self, n, env):
        return self.ev(n.body if truth(self.ev(n.test, env)) else n.orelse, env)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while e is not None and e.info is None and e.cls is None and e.parent is not None and e.func is None and e.vars is not e.module.ns:
            e = e.parent
        self.store(n.target.id, v, e if e is not None else env)
        return v

    def e_Lambda(self, n, env):
        return self.mkfunc(n, env)

    def e_Starred(self, n, env):
        raise Undecided("starred expression")

    def e_Await(self, n, env):
        raise Undecided("await")

    def e_JoinedStr(self, n, env):
        out = ""
        opaque = None
        pending = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                pending.append(p.value)
                continue
            v = self.ev(p.value, env)
            pending.append(self.fmt(v, p.conversion, None if p.format_spec is None else self.ev(p.format_spec, env)))
        return self.concat_text(pending)

    def e_FormattedValue(self, n, env):
        return self.fmt(self.ev(n.value, env), n.conversion, None if n.format_spec is None else self.ev(n.format_spec, env))

    def fmt(self, v, conv, spec):
        v = force(v)
        if conv == 114:
            v = self.std.repr_(v)
        elif conv == 115:
            v = self.std.str_(v)
        if spec:
            if isinstance(v, (str, int, float)) and isinstance(spec, str):
                return self.hostcall(format, v, spec)
            return Text("formatted text")
        return self.std.str_(v)

    def concat_text(self, parts):
        if any(isinstance(p, Unk) for p in parts):
            return Text("text", "".join(p.known if isinstance(p, Text) else GAP if isinstance(p, (Unk, *SYMS)) else raw(p) for p in parts))
        if any(isinstance(p, SYMS) for p in parts):
            v = ""
            for p in parts:
                v = self.std.str_concat(v, p)
            return v
        return mk("".join(raw(p) for p in parts))

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = True
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, env)
            res = self.cmp(op, left, right)
            if len(n.ops) > 1 and not truth(res):
                return False
            left = right
        return res

    def cmp(self, op, a, b):
        t = type(op)
        if t is ast.Is:
            return self.is_(a, b)
        if t is ast.IsNot:
            return not self.is_(a, b)
        if t is ast.Eq:
            return self.equal(a, b)
        if t is ast.NotEq:
            return not self.equal(a, b)
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return not self.contains(b, a)
        o = _CMP[t]
        return self.order(o, a, b)

    def order(self, o, a, b):
        a, b = conc(a), conc(b)
        if isinstance(a, Inst) or isinstance(b, Inst):
            return self.binary_dunder(*_CMPD[o], a, b)
        if isinstance(a, (ISet, IView)) and isinstance(b, (ISet, IView)):
            return self.std.set_order(o, a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, type(a)):
            for x, y in zip(a, b):
                if not eq(x, y):
                    return self.order(o, x, y)
            return core.host_cmp(o, len(a), len(b))
        return self.hostcall(compare, o, a, b)

    def equal(self, a, b):
        a, b = force(a), force(b)
        if isinstance(a, Inst) or isinstance(b, Inst):
            if isinstance(b, SYMS):
                b = conc(b)
            if isinstance(a, SYMS):
                a = conc(a)
        return eq(a, b)

    def is_(self, a, b) -> bool:
        if a is b:
            return True
        if isinstance(a, Unk) or isinstance(b, Unk):
            return core.unk_bool("identity with an unknown value")
        if isinstance(b, Sym) and not isinstance(a, Sym):
            a, b = b, a
        if isinstance(a, Sym):
            if isinstance(b, Sym):
                if a.name == b.name:
                    return True
                b = conc(b)
                if isinstance(b, Sym):
                    return False
            if b is None or isinstance(b, bool):
                def cl(x):
                    if b is None:
                        return [(x[0] == "none", x)]
                    return [(x[0] == "bool" and x[1] is b, x)]
                r = core.ask(a, cl, f"is {b}:")
                return r
            a = conc(a)
            if isinstance(a, Sym):
                if isinstance(b, (int, str)):
                    return eq(a, b)
                return False
        a, b = force(a), force(b)
        if a is b:
            return True
        if isinstance(a, (ExtV, GenT, UnionT, Null)) and type(a) is type(b):
            return a == b
        if isinstance(a, (int, str)) and type(a) is type(b):
            return a == b
        if isinstance(a, (str, OStr)) and isinstance(b, (str, OStr)):
            return eq(a, b)
        return False

    def contains(self, c, x):
        c = conc(c)
        if isinstance(c, Unk):
            return core.unk_bool("membership in an unknown value")
        if isinstance(c, (IDict, ISet)):
            return self.hostcall(c.__contains__, x)
        if isinstance(c, (list, tuple)):
            return any(self.is_same(x, y) or self.equal(x, y) for y in list(c))
        if isinstance(c, (str, OStr, Der)) or (isinstance(c, Sym) and kind(c) == "str"):
            x = conc(x)
            if isinstance(x, (Unk,)):
                return core.unk_bool("substring test")
            if not (isinstance(x, (str, OStr, Der)) or (isinstance(x, Sym) and kind(x) == "str")):
                py(TypeError, f"'in <string>' requires string as left operand, not {self.tyname(x)}")
            return self.std.substr(c, x)
        if isinstance(c, range):
            x = conc(x)
            if isinstance(x, SYMS):
                if c.step == 1 and kind(x) == "int":
                    return compare(">=", x, c.start) and compare("<", x, c.stop)
                x = core.concretize(x)
            return x in c
        if isinstance(c, Inst):
            f = self.typeattr(c.cls, "__contains__")
            if f is not None:
                return truth(self.call(f, [c, x], {}))
            if self.has_iter(c):
                return any(self.equal(x, y) for y in self.iterate(c))
            return self.std.inst_contains(c, x)
        if isinstance(c, ClassV) and c.cache.get("enum"):
            return any(self.equal(x, m) or self.equal(x, m.d.get("value")) for m in c.cache["enum"].vals_())
        if c is None or isinstance(c, (int, float, SYMS)):
            py(TypeError, f"argument of type '{self.tyname(c)}' is not iterable")
        return any(self.equal(x, y) for y in self.iterate(c))

    def is_same(self, a, b):
        return a is b

    def tyname(self, v):
        v = force(v)
        if isinstance(v, Sym):
            k = kind(v)
            v = force(v)
            if isinstance(v, Sym):
                return k
        if v is None:
            return "NoneType"
        return tname(self.type_(v))

    def binop(self, op, a, b, aug=False):
        t = type(op)
        a, b = force(a), force(b)
        if t is ast.BitOr and (self.typeish(a) or self.typeish(b)) and (a is None or b is None or (self.typeish(a) and self.typeish(b)) or isinstance(a, str) or isinstance(b, str)):
            return UnionT([a, b])
        for x, y, r in ((a, b, 0), (b, a, 1)):
            if isinstance(x, Inst):
                d = _BINDUNDER.get(t)
                if d:
                    f = self.typeattr(x.cls, d[r])
                    if f is not None:
                        v = self.call(f, [x, y], {})
                        if v is not NotImplemented:
                            return v
        if isinstance(a, Unk) or isinstance(b, Unk):
            if t is ast.Add and (isinstance(a, Text) or isinstance(b, Text)):
                return self.concat_text([x if isinstance(x, (str, OStr, Unk)) else Unk("part") for x in (a, b)])
            return Text("text") if isinstance(a, Text) or isinstance(b, Text) else Unk("arithmetic")
        return self.std.binop(t, a, b, aug)

    def typeish(self, v):
        return isinstance(v, (type, ClassV, ExtV, GenT, UnionT)) and not isinstance(v, FieldV)

    def binary_dunder(self, d, r, a, b):
        if isinstance(a, Inst):
            f = self.typeattr(a.cls, d)
            if f is not None:
                v = self.call(f, [a, b], {})
                if v is not NotImplemented:
                    return v
        if isinstance(b, Inst):
            f = self.typeattr(b.cls, r)
            if f is not None:
                v = self.call(f, [b, a], {})
                if v is not NotImplemented:
                    return v
        py(TypeError, f"'{d}' not supported between instances of '{self.tyname(a)}' and '{self.tyname(b)}'")

    # comprehensions
    def comp_loop(self, gens, i, env, emit):
        if i == len(gens):
            emit(env)
            return
        g = gens[i]
        it = g._it if False else self.iterate(self.ev(g.iter, env if i else env.parent))
        while True:
            x = self.next_(it)
            if x is UNBOUND:
                return
            self.assign(g.target, x, env)
            if all(truth(self.ev(c, env)) for c in g.ifs):
                self.comp_loop(gens, i + 1, env, emit)

    def comp_env(self, env):
        return Env(env.module, parent=env, func=None)

    def e_ListComp(self, n, env):
        out = []
        e = self.comp_env(env)
        self.comp_loop(n.generators, 0, e, lambda en: out.append(self.ev(n.elt, en)))
        return out

    def e_SetComp(self, n, env):
        out = ISet()
        e = self.comp_env(env)
        self.comp_loop(n.generators, 0, e, lambda en: self.hostcall(out.add, self.ev(n.elt, en)))
        return out

    def e_DictComp(self, n, env):
        out = IDict()
        e = self.comp_env(env)

        def emit(en):
            k = self.ev(n.key, en)
            self.hostcall(out.set, k, self.ev(n.value, en))
        self.comp_loop(n.generators, 0, e, emit)
        return out

    def e_GeneratorExp(self, n, env):
        e = self.comp_env(env)
        first = self.iterate(self.ev(n.generators[0].iter, env))

        def loop(i):
            if i == len(n.generators):
                yield self.ev(n.elt, e)
                return
            g = n.generators[i]
            it = first if i == 0 else self.iterate(self.ev(g.iter, e))
            while True:
                x = self.next_(it)
                if x is UNBOUND:
                    return
                self.assign(g.target, x, e)
                if all(truth(self.ev(c, e)) for c in g.ifs):
                    yield from loop(i + 1)
        return loop(0)

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, env):
        f = self.ev(n.func, env)
        if self.site_stack:
            cur = self.site_stack[-1]
            old = cur[1]
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        for k in n.keywords:
            if k.arg is None:
                m = conc(self.ev(k.value, env))
                if isinstance(m, Unk):
                    raise Undecided("** of an unknown value")
                if isinstance(m, Inst):
                    pairs = [(x, self.getitem(m, x)) for x in self.iterate(self.call(self.getattr(m, "keys"), [], {}))]
                elif isinstance(m, IDict):
                    pairs = m.live()
                else:
                    py(TypeError, "argument after ** must be a mapping")
                for kk, v in pairs:
                    if kk in kw:
                        py(TypeError, f"got multiple values for keyword argument '{kk}'")
                    kw[kk] = v
            else:
                if k.arg in kw:
                    py(TypeError, f"got multiple values for keyword argument '{k.arg}'")
                kw[k.arg] = self.ev(k.value, env)
        if self.site_stack:
            self.site_stack[-1][1] = n
        if isinstance(f, ExtV) and f.q == "builtins.super" or f is hb.super:
            return self.super_(args, env)
        if isinstance(f, Meth) and f.name in ("locals", "vars") and not args:
            return IDict(list(env.vars.items()))
        return self.call(f, args, kw)

    def super_(self, args, env):
        if args:
            return SuperV(args[0], args[1])
        e = self.method_env(env)
        if e is None:
            py(RuntimeError, "super(): no arguments")
        a = e.func.node.args
        first = (a.posonlyargs + a.args)[0].arg
        return SuperV(e.func.defcls, e.vars[first])

    def call(self, f, args, kw):
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        f = conc(f)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundV):
            return self.call(f.f, [f.self_] + list(args), kw)
        if isinstance(f, Meth):
            return self.hostcall(f.fn, *args, **kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, Inst):
            m = self.typeattr(f.cls, "__call__")
            if m is None:
                py(TypeError, f"'{f.cls.name}' object is not callable")
            return self.call(m, [f] + list(args), kw)
        if isinstance(f, CachedF):
            return self.call_cached(f, args, kw)
        if isinstance(f, Wrapped):
            if f.kind in ("staticmethod",):
                return self.call(f.f, args, kw)
            py(TypeError, f"'{f.kind}' object is not callable")
        if isinstance(f, PydDec):
            return self.call(f.f, args, kw)
        if isinstance(f, Unk):
            for a in list(args) + list(kw.values()):
                if isinstance(a, (Inst, IDict, ISet, list)):
                    R().taint = R().taint or f"call of an unknown function ({f.why})"
            return Unk(f"result of {f.why}")
        if isinstance(f, Null):
            ev = ("log", f.path, args)
            self.event(ev)
            return self.std.null_call(f, args, kw)
        if isinstance(f, (ExtV, ExtCall)):
            return self.std.call_ext(f, args, kw)
        if isinstance(f, GenT):
            return self.call(f.origin, args, kw)
        if isinstance(f, type):
            return self.std.call_type(f, args, kw)
        if f is None or isinstance(f, (bool, int, float, str, list, tuple, IDict, ISet, OStr, SYMS)):
            py(TypeError, f"'{self.tyname(f)}' object is not callable")
        if callable(f):
            return self.hostcall(f, *args, **kw)
        py(TypeError, f"'{self.tyname(f)}' object is not callable")

    def call_cached(self, f, args, kw):
        key = tuple(args) + tuple(x for kv in sorted(kw.items()) for x in kv)
        def look():
            return f.cache.find(key)
        i = self.hostcall(look)
        if i is not None:
            return f.cache.pairs[i][1]
        v = self.call(f.f, args, kw)
        if core._cur:
            R().events.append(("cached", f.cache.owner[1], key))
        f.cache.set(key, v)
        return v

    def bind(self, f, args, kw, env):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        npos = len(a.posonlyargs)
        vals = env.vars
        kw = dict(kw)
        if len(args) > len(names):
            if a.vararg is None:
                py(TypeError, f"{f.name}() takes {len(names)} positional arguments but {len(args)} were given")
        for nme, v in zip(names, args):
            vals[nme] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(names):])
        for i, nme in enumerate(names):
            if nme in kw and i >= npos:
                if nme in vals and i < len(args):
                    py(TypeError, f"{f.name}() got multiple values for argument '{nme}'")
                vals[nme] = kw.pop(nme)
        nd = len(f.defaults)
        for i, nme in enumerate(names):
            if nme not in vals:
                j = i - (len(names) - nd)
                if j < 0:
                    py(TypeError, f"{f.name}() missing 1 required positional argument: '{nme}'")
                vals[nme] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg in kw:
                vals[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                vals[x.arg] = f.kwdefaults[x.arg]
            else:
                py(TypeError, f"{f.name}() missing 1 required keyword-only argument: '{x.arg}'")
        if a.kwarg is not None:
            vals[a.kwarg.arg] = IDict(list(kw.items()))
        elif kw:
            py(TypeError, f"{f.name}() got an unexpected keyword argument '{next(iter(kw))}'")

    def call_func(self, f, args, kw):
        h = self.hooks.get(f.qual)
        if h is not None:
            r = h(f, args, kw)
            if r is not UNBOUND:
                return r
        if self.memo is None or not core._cur:
            return self.call_body(f, args, kw)
        run = R()
        if run.taint:
            return self.call_body(f, args, kw)
        recv = args[0].cls if args and isinstance(args[0], Inst) and f.defcls is not None else None
        pk = (f, recv)
        ok = self.purity.get(pk)
        if ok is None:
            ok = self.purity[pk] = purity.pure(self, f, recv)
        if not ok:
            return self.call_body(f, args, kw)
        rest = tuple(args[1:] if recv is not None else args)
        ren = {}
        key = memo_key((rest, tuple(kw.items())), ren)
        if key is MISSING:
            return self.call_body(f, args, kw)
        known = list(ren)
        if known and run.kne:
            key = (key, tuple(frozenset(run.kne.get(c, ())) for c in known))
        table = self.memo.setdefault(pk, {})
        hit = table.get(key)
        if hit is not None:
            for q in hit[1]:
                run.visited[q] = run.visited.get(q, 0) + 1
            return memo_copy(hit[0], {b: a for a, b in ren.items()})
        n, e = len(run.trace), len(run.events)
        seen = dict(run.visited)
        r = self.call_body(f, args, kw)
        if len(run.trace) == n and len(run.events) == e and not run.taint:
            again = memo_key((rest, tuple(kw.items())), {})
            if len(known) and run.kne:
                again = (again, tuple(frozenset(run.kne.get(c, ())) for c in known))
            if memo_key(r, ren) is not MISSING and list(ren) == known and again == key:
                table[key] = (memo_copy(r, ren, True), [q for q, k in run.visited.items() if seen.get(q) != k])
        return r

    def call_body(self, f, args, kw):
        env = Env(f.module, parent=f.closure, info=f.info, func=f)
        self.bind(f, args, kw, env)
        if core._cur:
            R().visited[f.qual] = R().visited.get(f.qual, 0) + 1
        if isinstance(f.node, ast.AsyncFunctionDef):
            raise Undecided("async function")
        if isinstance(f.node, ast.Lambda):
            self.enter(f)
            try:
                return self.ev(f.node.body, env)
            finally:
                self.leave()
        if f.info.isgen:
            return self.rungen(f, env)
        self.enter(f)
        try:
            r = self.block(f.node.body, env)
        finally:
            self.leave()
        return r[1] if r is not None else None

    def enter(self, f):
        self.depth += 1
        if core._cur and self.depth > core._cur[-1].maxdepth:
            core._cur[-1].maxdepth = self.depth
        self.site_stack.append([f, f.node])
        if self.depth > self.maxdepth:
            self.depth -= 1
            self.site_stack.pop()
            self.depth += 1
            self.site_stack.append([f, f.node])
            raise PyRaise(RecursionError("maximum recursion depth exceeded"), self.here())

    def leave(self):
        self.depth -= 1
        if self.site_stack:
            self.site_stack.pop()

    def reset(self):
        self.depth = 0
        self.site_stack.clear()
        self.handling = []

    # ------------------------------------------------------------------ instances
    def instantiate(self, cls, args, kw):
        h = self.hooks.get("new:" + cls.qual) or self.hooks.get("new:*")
        if h is not None:
            r = h(cls, args, kw)
            if r is not UNBOUND:
                return r
        sp = self.std.special_class(cls, args, kw)
        if sp is not UNBOUND:
            return sp
        if self.pyd.is_model(cls):
            return self.pyd.construct(cls, args, kw)
        new = self.typeattr(cls, "__new__")
        if new is not None:
            o = self.call(new.f if isinstance(new, Wrapped) else new, [cls] + list(args), kw)
        else:
            o = Inst(cls)
        init = self.typeattr(cls, "__init__")
        if isinstance(o, Inst) and o.cls.is_sub(cls):
            if init is not None:
                self.call(init, [o] + list(args), kw)
            elif self.exc_base(cls):
                o.d.set("args", tuple(args))
            elif (args or kw) and new is None:
                py(TypeError, f"{cls.name}() takes no arguments")
        if core._cur:
            R().keep.append(o)
        return o

    def typeattr(self, cls, name):
        r = cls.find(name)
        if r is None:
            return None
        v = r[1]
        if isinstance(v, PydDec):
            v = v.f
        return v

    def type_(self, v):
        v = conc(v)
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, SYMS):
            return {"str": str, "int": int, "float": float}[kind(v)]
        if isinstance(v, OStr):
            return str
        if isinstance(v, IDict):
            return dict if v.kind == "dict" else v.kind
        if isinstance(v, FSet):
            return frozenset
        if isinstance(v, ISet):
            return set
        if isinstance(v, (IList,)):
            return list
        if isinstance(v, IdInt):
            return int
        if isinstance(v, ClassV):
            if self.pyd.is_model(v):
                return ExtV("pydantic._internal._model_construction.ModelMetaclass")
            return type
        if isinstance(v, FuncV):
            return types.FunctionType
        if isinstance(v, BoundV):
            return types.MethodType
        if isinstance(v, Unk):
            return Unk("type")
        if isinstance(v, FieldV):
            return ExtV("pydantic.fields.FieldInfo")
        c = getattr(type(v), "_classv", None)
        if c is not None:
            return c
        return type(v)

    def isinstance_(self, v, t) -> bool:
        t = conc(t)
        if isinstance(t, tuple):
            return any(self.isinstance_(v, x) for x in t)
        if isinstance(t, UnionT):
            return any(self.isinstance_(v, type(None) if x is None else x) for x in t.args)
        if isinstance(t, GenT):
            py(TypeError, "isinstance() argument 2 cannot be a parameterized generic")
        if isinstance(v, Unk):
            return core.unk_bool("isinstance of an unknown value")
        if isinstance(t, Unk):
            return core.unk_bool("isinstance with an unknown type")
        if isinstance(v, Sym):
            def cl(a):
                k = a[0]
                if k == "val":
                    return [("val:" + a[1], a)]
                ex = {"none": None, "bool": True, "int": 1, "float": 1.0, "str": ""}[k]
                return [(self.std.isinst(ex, t), a)]
            r = core.ask(v, cl, f"isinstance {tname(t)}:")
            if isinstance(r, str):
                return self.isinstance_(force(v), t)
            return r
        if isinstance(v, Der):
            return self.std.isinst("", t)
        if isinstance(v, IntOf):
            return self.std.isinst(1, t)
        return self.std.isinst(force(v), t)

    def has_iter(self, v):
        return self.typeattr(v.cls, "__iter__") is not None

    def iterate(self, v):
        v = conc(v)
        if isinstance(v, (list, tuple, range)):
            return iter(v)
        if isinstance(v, (IDict, ISet)):
            return iter(v)
        if isinstance(v, str):
            return iter(v)
        if isinstance(v, OStr):
            return iter([mk(c) for c in raw(v)])
        if isinstance(v, SYMS):
            k = kind(v)
            if k == "str":
                return iter(core.concretize(v))
            py(TypeError, f"'{k}' object is not iterable")
        if isinstance(v, Unk):
            if isinstance(v, Text):
                R().taint = R().taint or "iteration over text"
            raise Undecided(f"iteration over an unknown value ({v.why}) at {self.here()}")
        if isinstance(v, Inst):
            f = self.typeattr(v.cls, "__iter__")
            if f is not None:
                return self.iterate(self.call(f, [v], {}))
            if self.typeattr(v.cls, "__next__") is not None:
                def nx():
                    while True:
                        try:
                            yield self.call(self.typeattr(v.cls, "__next__"), [v], {})
                        except PyRaise as e:
                            if isinstance(e.exc, StopIteration):
                                return
                            raise
                return nx()
            if self.pyd.is_model(v.cls):
                return self.pyd.iter_model(v)
            g = self.typeattr(v.cls, "__getitem__")
            if g is not None:
                def gi():
                    i = 0
                    while True:
                        try:
                            x = self.call(g, [v, i], {})
                        except PyRaise as e:
                            if isinstance(e.exc, IndexError):
                                return
                            raise
                        yield x
                        i += 1
                return gi()
            py(TypeError, f"'{v.cls.name}' object is not iterable")
        if isinstance(v, ClassV) and v.cache.get("enum") is not None:
            return iter(v.cache["enum"].vals_())
        if v is None or isinstance(v, (bool, int, float, FuncV, ClassV)):
            py(TypeError, f"'{self.tyname(v)}' object is not iterable")
        if isinstance(v, Null):
            raise Undecided("iteration over an opaque object")
        if isinstance(v, (ExtV, ExtCall)):
            raise Undecided(f"iteration over {v!r}")
        return self.hostcall(iter, v)

    def len_(self, v):
        v = conc(v)
        if isinstance(v, SYMS):
            k = kind(v)
            if k == "str":
                return LenOf(v)
            py(TypeError, f"object of type '{k}' has no len()")
        if isinstance(v, OStr):
            ns = self.sizes("asyncapi3", lo=8, hi=2000)
            return len(core.concretize_keys(v, ns[-1:]))
        if isinstance(v, Unk):
            return Unk("length")
        if isinstance(v, Inst):
            f = self.typeattr(v.cls, "__len__")
            if f is None:
                py(TypeError, f"object of type '{v.cls.name}' has no len()")
            return self.call(f, [v], {})
        if isinstance(v, ClassV) and v.cache.get("enum") is not None:
            return len(v.cache["enum"])
        if isinstance(v, Proxy) and not isinstance(v, (IDict, ISet)):
            py(TypeError, f"object of type '{self.tyname(v)}' has no len()")
        return self.hostcall(len, v)

    def truth(self, v) -> bool:
        if isinstance(v, Inst):
            for d in ("__bool__", "__len__"):
                f = self.typeattr(v.cls, d)
                if f is not None:
                    return truth(self.call(f, [v], {}))
            return True
        if isinstance(v, (IDict, ISet)):
            return len(v) > 0
        if isinstance(v, (Sym, Unk)):
            return core.truth(v)
        if isinstance(v, Proxy):
            return True
        return bool(v)

    def hash_check(self, v):
        if isinstance(v, Inst):
            c = v.cls
            hf, ef = c.find("__hash__"), c.find("__eq__")
            if hf is None and ef is None:
                if self.pyd.is_model(c) and not self.pyd.frozen(c):
                    py(TypeError, f"unhashable type: '{c.name}'")
                return
            if hf is not None and hf[1] is None:
                py(TypeError, f"unhashable type: '{c.name}'")
            if hf is None or (ef is not None and c.mro.index(ef[0]) < c.mro.index(hf[0])):
                py(TypeError, f"unhashable type: '{c.name}'")

    def hash_(self, v):
        v = conc(v)
        if isinstance(v, Inst):
            self.hash_check(v)
            f = self.typeattr(v.cls, "__hash__")
            if f is not None:
                return self.call(f, [v], {})
            return self.std.ident(v)
        if isinstance(v, (list, IDict)) or (isinstance(v, ISet) and not isinstance(v, FSet)):
            py(TypeError, f"unhashable type: '{self.tyname(v)}'")
        if isinstance(v, (OStr, SYMS)):
            return HashOf(v)
        if isinstance(v, tuple):
            if all(plain(x) for x in v):
                return hash(v)
            return HashOf(v)
        if isinstance(v, Unk):
            return Unk("hash")
        return hash(v)

    def obj_eq(self, a, b):
        if isinstance(a, HashOf) or isinstance(b, HashOf):
            if isinstance(a, HashOf) and isinstance(b, HashOf):
                return eq(a.v, b.v)
            o, h = (b, a) if isinstance(a, HashOf) else (a, b)
            if isinstance(o, int):
                return False
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Inst):
                f = self.typeattr(x.cls, "__eq__")
                if f is not None:
                    r = self.call(f, [x, y], {})
                    if r is not NotImplemented:
                        return truth(r)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Inst):
                if self.std.is_enum(x):
                    if isinstance(y, Inst):
                        return False
                    if self.std.enum_mixin(x.cls):
                        return eq(x.d.get("value"), y)
                    return False
                if isinstance(y, Inst) and self.pyd.is_model(x.cls):
                    return self.pyd.model_eq(x, y)
                if isinstance(y, Inst) and x.cls is y.cls and x.cls.cache.get("dataclass_eq"):
                    return all(eq(x.d.get(n), y.d.get(n)) for n in x.cls.cache["dataclass_eq"])
                return False
        if isinstance(a, (ExtV, GenT, UnionT, Null, FieldV, BoundV, Meth)) and type(a) is type(b):
            return a == b
        if type(a) is type(b) and type(a).__name__ == "UrlV":
            return a.t.name == b.t.name and eq(a.s, b.s)
        if isinstance(a, IView) or isinstance(b, IView):
            return self.std.set_order("==", a, b)
        return False

    # ------------------------------------------------------------------ attributes and items
    def getattr(self, o, name, default=UNBOUND):
        try:
            return self.getattr_(o, name)
        except PyRaise as e:
            if default is not UNBOUND and isinstance(e.exc, AttributeError):
                return default
            raise

    def noattr(self, o, name):
        py(AttributeError, f"'{self.tyname(o)}' object has no attribute '{name}'")

    def getattr_(self, o, name):
        if isinstance(o, Inst):
            return self.inst_attr(o, name)
        o = conc(o)
        if isinstance(o, Inst):
            return self.inst_attr(o, name)
        if isinstance(o, ModV):
            if name in o.ns:
                return o.ns[name]
            if self.find_module(f"{o.name}.{name}"):
                return self.load(f"{o.name}.{name}")
            if name == "__dict__":
                return IDict(list(o.ns.items()))
            py(AttributeError, f"module '{o.name}' has no attribute '{name}'")
        if isinstance(o, ClassV):
            return self.class_attr(o, name)
        if isinstance(o, SuperV):
            return self.super_attr(o, name)
        return self.std.getattr(o, name)

    def bind_desc(self, v, inst, cls, name):
        if isinstance(v, PydDec):
            v = v.f
        if isinstance(v, Wrapped):
            if v.kind == "staticmethod":
                return v.f
            if v.kind == "classmethod":
                return BoundV(v.f, cls)
            if v.kind == "property":
                if inst is None:
                    return v
                if v.f is None:
                    self.noattr(inst, name)
                return self.call(v.f, [inst], {})
            if v.kind == "cached_property":
                if inst is None:
                    return v
                r = self.call(v.f, [inst], {})
                self.raw_set(inst, name, r)
                return r
        if inst is not None:
            if isinstance(v, FuncV):
                return BoundV(v, inst)
            if isinstance(v, CachedF):
                return BoundV(v, inst)
            if isinstance(v, Inst):
                g = self.typeattr(v.cls, "__get__")
                if g is not None:
                    return self.call(g, [v, inst, cls], {})
        return v

    def raw_set(self, inst, name, v):
        if inst.owner is not None and core._cur:
            self.owner_event(inst, ("setattr", name))
            if inst.owner[0] == "global":
                saved = inst.d._save()
                R().undo.append(lambda: inst.d._load(saved))
        inst.d.set(name, v)

    def owner_event(self, inst, what):
        R().events.append(("mutate", inst.owner, what))

    def inst_attr(self, o, name):
        ga = self.typeattr(o.cls, "__getattribute__")
        if ga is not None:
            return self.call(ga, [o, name], {})
        return self.inst_attr_base(o, name)

    def inst_attr_base(self, o, name):
        cls = o.cls
        model = self.pyd.is_model(cls)
        if name == "__class__":
            return cls
        r = cls.find(name)
        if r is not None and isinstance(r[1], Wrapped) and r[1].kind == "property":
            return self.bind_desc(r[1], o, cls, name)
        if model:
            v = self.pyd.attr(o, name)
            if v is not UNBOUND:
                return v
        else:
            if name == "__dict__":
                return o.d
            i = o.d.idx.get(name)
            if i is not None:
                return o.d.pairs[i][1]
        if r is not None:
            if not (model and name in self.pyd.info(cls).fields):
                return self.bind_desc(r[1], o, cls, name)
        v = self.std.inst_builtin_attr(o, name)
        if v is not UNBOUND:
            return v
        if model:
            v = self.pyd.method(o, cls, name)
            if v is not UNBOUND:
                return v
        g = self.typeattr(cls, "__getattr__")
        if g is not None:
            return self.call(g, [o, name], {})
        self.noattr(o, name)

    def class_attr(self, c, name):
        if name == "__name__":
            return c.name
        if name == "__mro__":
            return tuple(c.mro) + (object,)
        if name == "__bases__":
            return c.bases
        if name == "__dict__":
            return IDict(list(c.ns.items()))
        if name == "__annotations__":
            return IDict([(k, self.annotation(c, k)) for k in c.ann])
        if c.cache.get("enum") is not None:
            m = c.cache["enum"].get(name)
            if m is not None:
                return m
            if name == "__members__":
                return c.cache["enum"]
        model = self.pyd.is_model(c)
        r = c.find(name)
        if model:
            v = self.pyd.class_attr(c, name)
            if v is not UNBOUND:
                return v
        if r is not None:
            if not (model and name in self.pyd.info(c).fields):
                return self.bind_desc(r[1], None, c, name)
        if model:
            v = self.pyd.method(None, c, name)
            if v is not UNBOUND:
                return v
        v = self.std.class_builtin_attr(c, name)
        if v is not UNBOUND:
            return v
        py(AttributeError, f"type object '{c.name}' has no attribute '{name}'")

    def annotation(self, c, k):
        node, env = c.ann[k]
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            node = ast.parse(node.value, mode="eval").body
        return self.ev(node, env)

    def super_attr(self, o, name):
        obj = o.self_
        cls = obj if isinstance(obj, ClassV) else obj.cls
        r = cls.find(name, after=o.cls)
        if r is not None:
            if isinstance(obj, ClassV):
                return self.bind_desc(r[1], None, obj, name)
            if isinstance(r[1], FuncV):
                return BoundV(r[1], obj)
            return self.bind_desc(r[1], obj, cls, name)
        if self.pyd.is_model(cls):
            v = self.pyd.super_method(obj, cls, name)
            if v is not UNBOUND:
                return v
        v = self.std.object_method(obj, name)
        if v is not UNBOUND:
            return v
        py(AttributeError, f"'super' object has no attribute '{name}'")

    def setattr(self, o, name, v):
        o = conc(o)
        if isinstance(o, Inst):
            f = self.typeattr(o.cls, "__setattr__")
            if f is not None:
                self.call(f, [o, name, v], {})
                return
            self.setattr_base(o, name, v)
            return
        if isinstance(o, (ClassV, ModV, FuncV)):
            ns = o.ns if not isinstance(o, FuncV) else None
            if ns is None:
                if o.attrs is None:
                    o.attrs = {}
                ns = o.attrs
            if core._cur and self.frozen:
                old = ns.get(name, MISSING)
                R().undo.append(lambda: ns.__setitem__(name, old) if old is not MISSING else ns.pop(name, None))
                R().events.append(("mutate", ("global", f"{getattr(o, 'qual', None) or getattr(o, 'name', '')}.{name}"), ("assign",)))
            ns[name] = v
            return
        if isinstance(o, (Unk, Null)):
            return
        if isinstance(o, BaseException):
            return
        py(AttributeError, f"'{self.tyname(o)}' object has no attribute '{name}'")

    def setattr_base(self, o, name, v):
        r = o.cls.find(name)
        if r is not None and isinstance(r[1], Wrapped) and r[1].kind == "property":
            fs = r[1].extra.get("setter")
            if fs is None:
                py(AttributeError, f"property '{name}' has no setter")
            self.call(fs, [o, v], {})
            return
        if self.pyd.is_model(o.cls):
            self.pyd.setattr(o, name, v)
            return
        self.raw_set(o, name, v)

    def delattr(self, o, name):
        o = conc(o)
        if isinstance(o, Inst):
            if o.owner is not None and core._cur:
                self.owner_event(o, ("delattr", name))
            if name in o.d.idx:
                o.d.delete(name)
                return
            if o.extra is not None and name in o.extra:
                o.extra.delete(name)
                return
            self.noattr(o, name)
        raise Undecided("del of an attribute")

    def getitem(self, o, k):
        o = conc(o)
        if isinstance(o, Unk):
            return Unk(f"item of {o.why}")
        if isinstance(o, IDict):
            return self.hostcall(o.__getitem__, k)
        if isinstance(o, (list, tuple, range)):
            if isinstance(k, slice):
                return self.hostcall(operator.getitem, o, self.cslice(k))
            k = conc(k)
            if isinstance(k, SYMS):
                k = core.concretize(k)
            if isinstance(k, (str, OStr)):
                py(TypeError, f"{type(o).__name__} indices must be integers or slices, not str")
            return self.hostcall(operator.getitem, o, k)
        if isinstance(o, Inst):
            f = self.typeattr(o.cls, "__getitem__")
            if f is None:
                return self.std.inst_getitem(o, k)
            return self.call(f, [o, k], {})
        if isinstance(o, (type, ExtV, ClassV)) or (isinstance(o, Wrapped)):
            return self.std.subscript_type(o, k)
        if isinstance(o, (str, OStr, SYMS)):
            return self.std.str_getitem(o, k)
        if isinstance(o, (Proxy,)):
            return self.std.getitem(o, k)
        if o is None or isinstance(o, (int, float, bool)):
            py(TypeError, f"'{self.tyname(o)}' object is not subscriptable")
        return self.hostcall(operator.getitem, o, k)

    def cslice(self, k):
        f = lambda x: core.concretize(x) if isinstance(x, SYMS) else x
        return slice(f(conc(k.start)), f(conc(k.stop)), f(conc(k.step)))

    def setitem(self, o, k, v):
        o = conc(o)
        if isinstance(o, IDict):
            self.hostcall(o.set, k, v)
            return
        if isinstance(o, list):
            self.hostcall(operator.setitem, o, self.cslice(k) if isinstance(k, slice) else conc(k), v)
            return
        if isinstance(o, Inst):
            f = self.typeattr(o.cls, "__setitem__")
            if f is not None:
                self.call(f, [o, k, v], {})
                return
        if isinstance(o, Unk):
            return
        py(TypeError, f"'{self.tyname(o)}' object does not support item assignment")

    def delitem(self, o, k):
        o = conc(o)
        if isinstance(o, IDict):
            self.hostcall(o.delete, k)
            return
        if isinstance(o, list):
            self.hostcall(operator.delitem, o, k)
            return
        if isinstance(o, Inst):
            f = self.typeattr(o.cls, "__delitem__")
            if f is not None:
                self.call(f, [o, k], {})
                return
        py(TypeError, f"'{self.tyname(o)}' object doesn't support item deletion")


class HashOf(Proxy):
    """hash() of an abstract value: equal exactly when the values are."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"hash({show(self.v)})"

    def __hash__(self):
        return 11

    def __eq__(self, o):
        return eq(self, o)


del World.x_TryStar
