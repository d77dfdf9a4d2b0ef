"""Abstract values and the exploration of abstract paths.

A `Run` is one abstract path through the analysed source.  Every place where the outcome
of an operation depends on what an abstract value may be asks the run to choose; `explore`
enumerates the choices.  Abstract values carry a domain (sets of strings as regular
languages, integer intervals, None, booleans, alternatives of objects) that each choice
narrows, so a completed path stands for *all* inputs left in its domains.
"""
from __future__ import annotations

import re
import string

import lang
from lang import DFA, ALL, lit


class Stop(BaseException):
    """Base of everything that ends a path for a reason of the analysis itself."""


class Undecided(Stop):
    """The analysis cannot represent something exactly enough to give a verdict."""


class Diverges(Stop):
    """The path exceeded the step bound on input of fixed shape."""


class AnchorLost(Stop):
    """A construct the property is anchored to is no longer there."""


class Cut(Stop):
    """The path needs more deviations than the bound allows."""


class PyRaise(BaseException):
    """An exception raised by the analysed code."""

    def __init__(self, exc, site=None):
        self.exc, self.site = exc, site

    def __str__(self):
        return f"{exc_name(self.exc)}{exc_args(self.exc)} at {self.site}"


def exc_name(e):
    if isinstance(e, BaseException):
        return type(e).__name__
    c = getattr(e, "cls", None)
    return getattr(c, "name", None) or str(e)


def exc_args(e):
    try:
        a = e.args if isinstance(e, BaseException) else ()
        return f"({', '.join(show(x) for x in a)[:160]})"
    except Exception:
        return "()"


# ----------------------------------------------------------------------------- run
_cur: list["Run"] = []


def R() -> "Run":
    if not _cur:
        raise Undecided("no run")
    return _cur[-1]


class Run:
    def __init__(self, prefix=(), budget=None, max_steps=4_000_000):
        self.prefix = prefix
        self.trace = []  # (chosen, costs, labels)
        self.budget, self.spent = budget, 0
        self.dom = {}
        self.ksub, self.kne, self.kname = {}, {}, {}
        self.derived = {}
        self.fresh = set()   # spellings made up for keys: no other key has them
        self.nkeys = 0
        self.nspell = 0     # choices of spellings so far that cost nothing
        self.events = []
        self.taint = None
        self.sampled = False
        self.steps, self.max_steps = 0, max_steps
        self.mat = {}
        self.undo = []
        self.info = {}
        self.visited = {}
        self.keep = []
        self.maxdepth = 0

    def choose(self, labels, costs=None) -> int:
        n = len(labels)
        if n == 1:
            return 0
        if costs is None:
            costs = (0,) * n
        pos = len(self.trace)
        if pos < len(self.prefix):
            i = self.prefix[pos]
        else:
            i = None
            for k in range(n):
                if self.budget is None or self.spent + costs[k] <= self.budget:
                    i = k
                    break
            if i is None:
                raise Cut()
        self.trace.append((i, costs, labels, self.spent))
        self.spent += costs[i]
        return i

    # symbols
    def sym(self, name, alts):
        self.dom[name] = [a for a in alts if alt_ok(a)]
        return Sym(name)

    def newkey(self, label):
        c = chr(0xE000 + self.nkeys)
        self.nkeys += 1
        self.kname[c] = label
        return c

    def decisions(self):
        return [str(l[i]) for i, c, l, _ in self.trace if len(l) > 1 and str(l[i])]


def explore(fn, budget=None, max_paths=60000, max_steps=4_000_000):
    """Yield (run, result) for every abstract path of fn()."""
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        run = Run(prefix, budget, max_steps)
        _cur.append(run)
        try:
            try:
                res = fn()
            except Cut:
                res = CUT
        finally:
            for u in reversed(run.undo):
                u()
            _cur.pop()
        for i in range(len(prefix), len(run.trace)):
            ch, costs, labels, spent = run.trace[i]
            base = tuple(t[0] for t in run.trace[:i])
            for j in range(len(labels)):
                if j == ch:
                    continue
                if j < ch:
                    continue
                if budget is not None and spent + costs[j] > budget:
                    continue
                stack.append(base + (j,))
        n += 1
        if n > max_paths:
            raise Undecided(f"more than {max_paths} abstract paths")
        if res is not CUT:
            yield run, res


CUT = object()


def single(fn, **kw):
    """Run fn with concrete choices only (one path)."""
    out = list(explore(fn, **kw))
    if len(out) != 1:
        raise Undecided("more than one path where exactly one was expected")
    return out[0][1]


# ------------------------------------------------------------------------ alternatives
NONE = ("none",)


def AStr(d: DFA = ALL, lo=0, hi=None):
    return ("str", d, lo, hi)


def AInt(lo=None, hi=None):
    return ("int", lo, hi)


def ABool(b):
    return ("bool", b)


def AVal(label, factory):
    """A concrete value (or object built by factory on demand)."""
    return ("val", label, factory)


def alt_ok(a) -> bool:
    if a[0] == "str":
        return a[1].nonempty_len(a[2], a[3])
    if a[0] == "int":
        return a[1] is None or a[2] is None or a[1] <= a[2]
    return True


def split_str(a, d: DFA):
    _, e, lo, hi = a
    i, o = ("str", e & d, lo, hi), ("str", e - d, lo, hi)
    return (i if alt_ok(i) else None), (o if alt_ok(o) else None)


def cmp_ranges(op, k):
    lt, eq, gt = (None, k - 1), (k, k), (k + 1, None)
    tr = {"<": (1, 0, 0), "<=": (1, 1, 0), ">": (0, 0, 1), ">=": (0, 1, 1), "==": (0, 1, 0), "!=": (1, 0, 1)}[op]
    return [(lt, bool(tr[0])), (eq, bool(tr[1])), (gt, bool(tr[2]))]


def _meet(lo, hi, rl, rh):
    l2 = rl if lo is None else (lo if rl is None else max(lo, rl))
    h2 = rh if hi is None else (hi if rh is None else min(hi, rh))
    return l2, h2


def int_const(op, k):
    """Rewrite a comparison with a float constant to one with an integer."""
    if isinstance(k, bool):
        return op, int(k)
    if isinstance(k, int):
        return op, k
    if isinstance(k, float):
        if k == int(k):
            return op, int(k)
        import math
        f = math.floor(k)
        return {"<": ("<=", f), "<=": ("<=", f), ">": (">", f), ">=": (">", f), "==": (None, False), "!=": (None, True)}[op]
    raise Undecided("comparison of an integer with something else")


def show_alt(a) -> str:
    k = a[0]
    if k == "str":
        w = a[1].example(a[2], a[3])
        if w is None:
            return "str"
        return repr(w) if len(w) <= 60 else f"a string of length {len(w)}"
    if k == "int":
        lo, hi = a[1], a[2]
        return str(lo if lo is not None else hi if hi is not None else 0)
    if k == "none":
        return "None"
    if k == "bool":
        return str(a[1])
    return str(a[1])


def kind_of_value(v):
    if v is None:
        return "none"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, float):
        return "float"
    if isinstance(v, (str, OStr)):
        return "str"
    return "val"


# ------------------------------------------------------------------------ symbols
class Proxy:
    """Base of host objects that stand for values of the analysed program."""

    __slots__ = ()


class Sym(Proxy):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"

    def __hash__(self):
        v = force(self)
        if v is self:
            v = concretize(self)
        return hash(v)

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return not eq(self, o)

    def __bool__(self):
        return truth(self)

    def __lt__(self, o):
        return compare("<", self, o)

    def __le__(self, o):
        return compare("<=", self, o)

    def __gt__(self, o):
        return compare(">", self, o)

    def __ge__(self, o):
        return compare(">=", self, o)


class Der(Proxy):
    """A string computed from a symbolic string; languages are pulled back through it."""

    __slots__ = ("src", "op", "pull", "push")

    def __init__(self, src, op, pull, push):
        self.src, self.op, self.pull, self.push = src, op, pull, push

    def __repr__(self):
        return f"{self.op}({self.src!r})"

    __hash__ = Sym.__hash__
    __eq__ = Sym.__eq__
    __ne__ = Sym.__ne__
    __bool__ = Sym.__bool__
    __lt__ = Sym.__lt__
    __le__ = Sym.__le__
    __gt__ = Sym.__gt__
    __ge__ = Sym.__ge__


class IntOf(Proxy):
    """int() of a symbolic string."""

    __slots__ = ("src",)

    def __init__(self, src):
        self.src = src

    def __repr__(self):
        return f"int({self.src!r})"

    __hash__ = Sym.__hash__
    __eq__ = Sym.__eq__
    __ne__ = Sym.__ne__
    __bool__ = Sym.__bool__
    __lt__ = Sym.__lt__
    __le__ = Sym.__le__
    __gt__ = Sym.__gt__
    __ge__ = Sym.__ge__


class LenOf(IntOf):
    __slots__ = ()

    def __repr__(self):
        return f"len({self.src!r})"

    __hash__ = Sym.__hash__


SYMS = (Sym, Der, IntOf)


class Unk(Proxy):
    """Anything.  Branching on it is recorded as imprecision of the path."""

    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return f"<unknown {self.why}>"

    def __bool__(self):
        return truth(self)

    def __eq__(self, o):
        return self is o or eq(self, o)

    def __hash__(self):
        return id(self)


def pick(groups, label=""):
    """groups: {outcome: [alts]} -> chosen outcome (dict order)."""
    ks = list(groups)
    i = R().choose([f"{label}{k}" for k in ks])
    return ks[i]


def ask(sym: Sym, classify, label="") -> object:
    """Partition sym's alternatives by outcome and narrow to one part."""
    run = R()
    groups = {}
    for a in run.dom[sym.name]:
        for outcome, b in classify(a):
            if b is not None and alt_ok(b):
                groups.setdefault(outcome, []).append(b)
    if not groups:
        raise Cut()
    ks = list(groups)
    i = run.choose([f"{sym.name} {label} {k}" for k in ks]) if len(ks) > 1 else 0
    run.dom[sym.name] = groups[ks[i]]
    return ks[i]


def alt_kind(a):
    if a[0] == "val":
        return "val:" + a[1]
    return a[0]


def kind(v) -> str:
    """Kind of a value, splitting a symbol if needed: none bool int float str val."""
    if isinstance(v, Sym):
        return ask(v, lambda a: [(alt_kind(a) if a[0] != "bool" else "bool", a)], "is").split(":")[0]
    if isinstance(v, Der):
        return "str"
    if isinstance(v, IntOf):
        return "int"
    return kind_of_value(v)


def force(v):
    """Replace a symbol by its value when its domain leaves only one."""
    if isinstance(v, Sym):
        alts = R().dom[v.name]
        if len(alts) == 1:
            a = alts[0]
            if a[0] == "none":
                return None
            if a[0] == "bool":
                return a[1]
            if a[0] == "int" and a[1] is not None and a[1] == a[2]:
                return a[1]
            if a[0] == "val":
                key = (v.name, a[1])
                if key not in R().mat:
                    R().mat[key] = a[2]() if callable(a[2]) else a[2]
                return R().mat[key]
        return v
    if isinstance(v, OStr):
        return mk(v.s)
    return v


def conc(v):
    """Split by kind (and by boolean value) and return a concrete value, or a symbol known to be str/int/float."""
    if isinstance(v, Sym):
        k = kind(v)
        if k == "bool":
            ask(v, lambda a: [(a[1], a)], "is")
        return force(v)
    return force(v) if isinstance(v, OStr) else v


def base_of(v):
    while isinstance(v, (Der, IntOf)):
        v = v.src
    return v


def sample_alts(a, also=()):
    if a[0] == "int":
        lo, hi = a[1], a[2]
        c = [x for x in (lo, lo + 1 if lo is not None else None, hi, hi - 1 if hi is not None else None, 0, 1, 7) if x is not None]
        if lo is None:
            c.append((hi if hi is not None else 0) - 12345)
        if hi is None:
            c.append((lo if lo is not None else 0) + 12345)
        out = []
        for x in c:
            if (lo is None or x >= lo) and (hi is None or x <= hi) and ("int", x, x) not in out:
                out.append(("int", x, x))
        return out
    if a[0] == "str":
        out, d = [], a[1]
        cands = [w for w in R().info.get("reps", ()) if d.accepts(w) and len(w) >= a[2] and (a[3] is None or len(w) <= a[3])]
        for _ in range(4):
            w = d.example(a[2], a[3])
            if w is None:
                break
            cands.append(w)
            d = d - lit(w)
        d = a[1]
        cands += [w for w in also if d.accepts(w) and len(w) >= a[2] and (a[3] is None or len(w) <= a[3])]
        cands += [w for w in telling() if d.accepts(w) and len(w) >= a[2] and (a[3] is None or len(w) <= a[3])][:24]
        for w in cands:
            b = ("str", lit(w), 0, None)
            if b not in out:
                out.append(b)
        return out
    return [a]


consts = lambda: ()   # the short string constants of the analysed function; set by the interpreter


def telling():
    """Strings built from the constants of the analysed function."""
    out = []
    for c in [*consts(), "a"]:
        out += [f"{c}a{c}", f"{c}{c}", f"{c}a", f"a{c}", f"a{c}b", f"{c}a b{c}", f"{c}{c}a{c}{c}", c]
    return list(dict.fromkeys(out))


def concretize(v, also=()):
    """Replace an abstract value by representative concrete values (each path realisable);
    `also` are strings that tell apart what the operation at hand does."""
    run = R()
    b = base_of(v)
    if isinstance(b, OStr):
        return concretize_keys(b)
    if not isinstance(b, Sym):
        return v
    opts = []
    for a in run.dom[b.name]:
        for s in sample_alts(a, also):
            if s not in opts:
                opts.append(s)
    if len(opts) > 1 or any(a[0] in ("int", "str") for a in run.dom[b.name]):
        run.sampled = True
    i = run.choose([f"{b.name} is {show_alt(a)}" for a in opts])
    run.dom[b.name] = [opts[i]]
    return value_now(v)


def text_lang(v):
    """What is known about a text here: (language, longest length or None), or None for a fixed text."""
    run = R()
    while isinstance(v, Der):
        v = v.src
        if isinstance(v, Sym):
            return (lang.ALL, None)
    if isinstance(v, Sym):
        d, hi = lang.EMPTY, 0
        for a in run.dom[v.name]:
            if a[0] == "str":
                d = d | a[1]
                hi = None if hi is None or a[3] is None else max(hi, a[3])
        return (d, hi)
    if isinstance(v, OStr):
        name = lang.regex("[A-Za-z0-9_-]+")
        return (lang.concat(*[name if k else lang.lit(t) for t, k in pieces(raw(v))]), None)
    if run.sampled:
        return (lang.ALL, None)
    return None


def value_now(v):
    """Value of an abstract value whose base is narrowed to one concrete value."""
    if isinstance(v, Sym):
        a = R().dom[v.name]
        if len(a) == 1 and a[0][0] == "str":
            return a[0][1].example(a[0][2], a[0][3])
        return force(v)
    if isinstance(v, Der):
        return v.push(value_now(v.src))
    if isinstance(v, LenOf):
        return len(value_now(v.src))
    if isinstance(v, IntOf):
        return int(value_now(v.src))
    return v


def ask_lang(v, d: DFA, label="") -> bool:
    """Is the (string-kind) value in the language?"""
    if isinstance(v, str):
        return d.accepts(v)
    if isinstance(v, OStr):
        return bool(amb(lambda s: d.accepts(s), (v,), extra=words_of_dfa(d)))
    while isinstance(v, Der):
        d = v.pull(d)
        v = v.src
    if not isinstance(v, Sym):
        raise Undecided("language test of a non-string")

    def cl(a):
        if a[0] != "str":
            raise Undecided("language test of a non-string")
        i, o = split_str(a, d)
        return [(True, i), (False, o)]
    return ask(v, cl, label)


def words_of_dfa(d):
    w = d.example(0, None)
    return (w,) if w else ()


def lens_lang(op, k):
    """Range list of lengths; used for Der values via enumeration of small k."""
    any1 = lang.charset(lang.FULL)
    exact = lambda n: lang.concat(*([any1] * n)) if n else lit("")
    below = lang.EMPTY if hasattr(lang, "EMPTY") else lit("") - lit("")
    for n in range(max(0, k)):
        below = below | exact(n)
    at = exact(k) if k >= 0 else below
    above = ~(below | at)
    return {"<": below, "<=": below | at, "==": at, "!=": ~at, ">": above, ">=": above | at}[op]


def ask_len(v, op, k) -> bool:
    op, k = int_const(op, k)
    if op is None:
        return k
    if isinstance(v, Sym):
        def cl(a):
            if a[0] != "str":
                raise Undecided("length of a non-string")
            _, e, lo, hi = a
            out = []
            for (rl, rh), want in cmp_ranges(op, k):
                l2, h2 = _meet(lo, hi, rl if rl is not None else 0, rh)
                if h2 is None or l2 <= h2:
                    out.append((want, ("str", e, l2, h2)))
            return out
        return ask(v, cl, f"len {op} {k}")
    if k > 40:
        return host_cmp(op, len(concretize(v)), k)
    return ask_lang(v, lens_lang(op, k), f"len {op} {k}")


def int_lang(op, k):
    eqd = lang.int_equal
    neg = lang.regex(r"\s*-0*[0-9_]*[1-9][0-9_]*\s*", 0, "fullmatch")
    if op == "==":
        return eqd(k)
    if op == "!=":
        return ~eqd(k)
    if op in (">", ">="):
        return ~int_lang("<=" if op == ">" else "<", k)
    if k < 0 or k > 200:
        raise Undecided("integer comparison of parsed text")
    d = neg
    for n in range(k + (1 if op == "<=" else 0)):
        d = d | eqd(n)
    return d


_SW = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


def host_cmp(op, a, b):
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    if op == ">=":
        return a >= b
    if op == "==":
        return a == b
    return a != b


def compare(op, a, b) -> bool:
    """Ordering comparison of abstract or concrete values (raises TypeError like Python)."""
    a, b = conc(a), conc(b)
    if isinstance(a, Unk) or isinstance(b, Unk):
        return unk_bool("comparison")
    if isinstance(b, SYMS) and not isinstance(a, SYMS):
        return compare(_SW[op], b, a)
    if isinstance(a, SYMS):
        if isinstance(b, SYMS):
            if a is b or (isinstance(a, Sym) and isinstance(b, Sym) and a.name == b.name):
                return op in ("<=", ">=")
            b = concretize(b)
        ka, kb = kind(a), kind_of_value(b)
        if ka in ("int", "float") and kb in ("int", "float", "bool"):
            if isinstance(a, LenOf):
                return ask_len(a.src, op, b)
            if isinstance(a, IntOf):
                return ask_lang(a.src, int_lang(*int_const(op, b)), f"int {op} {b}")
            o2, k2 = int_const(op, b)
            if o2 is None:
                return k2

            def cl(x):
                if x[0] != "int":
                    raise Undecided("float")
                out = []
                for (rl, rh), want in cmp_ranges(o2, k2):
                    l2, h2 = _meet(x[1], x[2], rl, rh)
                    if l2 is None or h2 is None or l2 <= h2:
                        out.append((want, ("int", l2, h2)))
                return out
            return ask(a, cl, f"{op} {b}")
        if ka == "str" and kb == "str":
            return host_cmp(op, concretize(a), b)
        raise TypeError(f"'{op}' not supported between instances of '{ka}' and '{kb}'")
    if isinstance(a, OStr) or isinstance(b, OStr):
        if isinstance(a, (OStr, str)) and isinstance(b, (OStr, str)):
            return host_cmp(op, concretize(a), concretize(b))
    return host_cmp(op, a, b)


def unk_bool(why):
    run = R()
    run.taint = run.taint or (why or "unknown value")
    return not run.choose([f"{why}: true", f"{why}: false"])


_obj_eq = None  # set by the interpreter: equality of program objects


SHAPES = (" a ", "Aa", "a  b", "\u00c9", "a\n", "/a/", "-a-", "a.b", "_a_", "0", "")


def telling_apart(a, b):
    """A text that makes two strings computed from the same symbol differ."""
    def chain(v):
        fs = []
        while isinstance(v, Der):
            fs.append(v.push)
            v = v.src
        return v, fs[::-1]

    def at(fs, t):
        for f in fs:
            t = f(t)
        return t
    (x, fa), (y, fb) = chain(a), chain(b)
    if not (isinstance(x, Sym) and isinstance(y, Sym) and x.name == y.name):
        return ()
    out = []
    for t in (*SHAPES, *telling()):
        try:
            if at(fa, t) != at(fb, t):
                out.append(t)
        except Exception:
            pass
    return out[:2]


def eq(a, b) -> bool:
    if a is b:
        return not (isinstance(a, float) and a != a)
    if isinstance(a, Unk) or isinstance(b, Unk):
        return unk_bool("equality with an unknown value")
    if isinstance(b, SYMS) and not isinstance(a, SYMS):
        a, b = b, a
    if isinstance(a, SYMS):
        b = force(b)
        a = force(a)
        if not isinstance(a, SYMS):
            return eq(a, b)
        if isinstance(b, SYMS):
            if isinstance(a, Sym) and isinstance(b, Sym) and a.name == b.name:
                return True
            if isinstance(a, Der) and isinstance(b, Der) and repr(a) == repr(b):
                return True
            if isinstance(a, Sym) and isinstance(b, Sym) and _disjoint(a, b):
                return False
            a = concretize(a, telling_apart(a, b))
            return eq(a, b) if not isinstance(b, SYMS) else eq(b, a)
        if isinstance(a, Der):
            if isinstance(b, str):
                return ask_lang(a, lit(b), f"== {b!r}")
            if isinstance(b, OStr):
                return _lang_vs_ostr(a, b)
            return False
        if isinstance(a, LenOf):
            return isinstance(b, (int, float)) and ask_len(a.src, "==", b)
        if isinstance(a, IntOf):
            return isinstance(b, (int, float)) and ask_lang(a.src, int_lang(*int_const("==", b)), f"== {b}")

        if isinstance(b, OStr):
            k = kind(a)
            return k == "str" and _lang_vs_ostr(a, b)

        def cl(x):
            if x[0] == "none":
                return [(b is None, x)]
            if x[0] == "bool":
                return [(not isinstance(b, Proxy) and isinstance(b, (bool, int, float)) and x[1] == b, x)]
            if x[0] == "str":
                if not isinstance(b, str):
                    return [(False, x)]
                i, o = split_str(x, lit(b))
                return [(True, i), (False, o)]
            if x[0] == "int":
                if isinstance(b, (bool, int, float)):
                    o2, k2 = int_const("==", b)
                    if o2 is None:
                        return [(k2, x)]
                    out = []
                    for (rl, rh), want in cmp_ranges("==", k2):
                        l2, h2 = _meet(x[1], x[2], rl, rh)
                        if l2 is None or h2 is None or l2 <= h2:
                            out.append((want, ("int", l2, h2)))
                    return out
                return [(False, x)]
            return [("val:" + x[1], x)]
        r = ask(a, cl, f"== {show(b)}:")
        if isinstance(r, str):
            return eq(force(a), b)
        return r
    if isinstance(a, OStr) or isinstance(b, OStr):
        if isinstance(a, (OStr, str)) and isinstance(b, (OStr, str)):
            return ostr_eq(a, b)
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list):
            return False
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, Proxy) or isinstance(b, Proxy):
        if isinstance(a, (IDict, ISet)) :
            return a._eq(b)
        if isinstance(b, (IDict, ISet)):
            return b._eq(a)
        return _obj_eq(a, b)
    try:
        return bool(a == b)
    except Exception:
        return False


def _disjoint(a, b):
    """Two symbols that cannot be equal strings (and are nothing but strings)."""
    da, db = R().dom[a.name], R().dom[b.name]
    return all(x[0] == "str" for x in da) and all(x[0] == "str" for x in db) and \
        all(not alt_ok(("str", x[1] & y[1], max(x[2] or 0, y[2] or 0), x[3] if y[3] is None else y[3] if x[3] is None else min(x[3], y[3]))) for x in da for y in db)


def _lang_vs_ostr(a, o):
    """A symbolic string against a string with arbitrary keys in it: the symbol's language
    decides unless it overlaps; then the keys are made concrete."""
    run = R()
    d = ostr_lang(o)
    # can it be equal at all?
    if not ask_lang(a, d, f"has the shape of {show(o)}"):
        return False
    # shapes overlap: equal for some value of the key
    i = run.choose([f"{show(a)} differs from {show(o)}", f"{show(a)} equals {show(o)}"])
    if i == 0:
        return False
    w = concretize(o)
    return ask_lang(a, lit(w), f"== {w!r}")


def ostr_lang(o):
    parts = []
    for piece, isk in pieces(o.s):
        parts.append(KEYLANG() if isk else lit(piece))
    return lang.concat(*parts)


def KEYLANG():
    return lang.regex(r"[A-Za-z0-9_\-]+", 0, "fullmatch")


_len_hook = None


def truth(v) -> bool:
    if v is None or isinstance(v, (bool, int, float, str, list, tuple, range, bytes)):
        return bool(v)
    if isinstance(v, Unk):
        return unk_bool(f"truth of {v.why}")
    if isinstance(v, OStr):
        return True
    if isinstance(v, Sym):
        def cl(a):
            k = a[0]
            if k == "none":
                return [(False, a)]
            if k == "bool":
                return [(a[1], a)]
            if k == "int":
                out = []
                for (rl, rh), want in cmp_ranges("!=", 0):
                    l2, h2 = _meet(a[1], a[2], rl, rh)
                    if l2 is None or h2 is None or l2 <= h2:
                        out.append((want, ("int", l2, h2)))
                return out
            if k == "str":
                i, o = split_str(a, lit(""))
                return [(False, i), (True, o)]
            return [("val:" + a[1], a)]
        r = ask(v, cl, "is true:")
        if isinstance(r, str):
            return truth(force(v))
        return r
    if isinstance(v, Der):
        return not ask_lang(v, lit(""), "is empty:")
    if isinstance(v, IntOf):
        return not eq(v, 0)
    return _len_hook(v)


# ------------------------------------------------------------------ strings with opaque keys
ALPH = set(string.ascii_letters + string.digits + "-_")


def is_key(c):
    return "\ue000" <= c <= "\uf8ff"


_PUA = re.compile("[\ue000-\uf8ff]")


def mk(s: str):
    """Normalise a host string that may contain key placeholders."""
    if not _PUA.search(s):
        return s
    sub = R().ksub
    if sub:
        while True:
            t = _PUA.sub(lambda m: sub.get(m.group(), m.group()), s)
            if t == s:
                break
            s = t
        if not _PUA.search(s):
            return s
    return OStr(s)


def raw(v):
    """Host text (with placeholders) of a str/OStr."""
    return v if isinstance(v, str) else mk(v.s).s if isinstance(mk(v.s), OStr) else mk(v.s)


def pieces(s):
    out, cur = [], ""
    for c in s:
        if is_key(c):
            if cur:
                out.append((cur, False))
                cur = ""
            out.append((c, True))
        else:
            cur += c
    if cur:
        out.append((cur, False))
    return out


class OStr(Proxy):
    """A string containing arbitrary (but fixed) patterned keys."""

    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return show(self)

    def __hash__(self):
        v = mk(self.s)
        return hash(v if isinstance(v, str) else v.s)

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return not eq(self, o)

    def __str__(self):
        return show(self)

    def __lt__(self, o):
        return compare("<", self, o)

    def __gt__(self, o):
        return compare(">", self, o)

    def __le__(self, o):
        return compare("<=", self, o)

    def __ge__(self, o):
        return compare(">=", self, o)


def token(c):
    return f"Kq7Z{ord(c) - 0xE000:x}Zw"


def tokenise(s, over=None):
    return _PUA.sub(lambda m: (over or {}).get(m.group()) or token(m.group()), s)


_TOK = re.compile(r"Kq7Z([0-9a-f]+)Zw")


def untoken(v):
    if isinstance(v, str):
        t = _TOK.sub(lambda m: chr(0xE000 + int(m.group(1), 16)), v)
        return mk(t)
    if isinstance(v, list):
        return [untoken(x) for x in v]
    if isinstance(v, tuple):
        return tuple(untoken(x) for x in v)
    return v


def _runs(s):
    return [w for w in re.findall(r"[A-Za-z0-9_\-]+", _PUA.sub(" ", s)) if len(w) <= 40]


GENERIC = ("a", "0", "-", "A_")


def amb(fn, operands, extra=(), generic=()):
    """Evaluate fn on strings with keys; where the outcome depends on how a key is spelled,
    choose between the generic spelling and spellings that change the outcome."""
    run = R()
    ops = [raw(o) if isinstance(o, (str, OStr)) else o for o in operands]
    keys = []
    for o in ops:
        if isinstance(o, str):
            for c in o:
                if is_key(c) and c not in keys:
                    keys.append(c)

    def ev(over):
        args = [tokenise(o, over) if isinstance(o, str) else o for o in ops]
        try:
            return ("v", fn(*args))
        except (ValueError, TypeError, IndexError, KeyError) as e:
            return ("e", type(e), e)

    base = ev({})
    if not keys:
        if base[0] == "e":
            raise base[2]
        return base[1]
    cands = []
    for o in list(ops) + list(extra):
        if isinstance(o, str):
            for w in _runs(o):
                if w not in cands:
                    cands.append(w)
    for g in generic:
        if g not in cands:
            cands.append(g)
    options = []
    for k in keys:
        seen = []
        for w in cands[:40]:
            if w in run.kne.get(k, ()) or w in run.fresh:
                continue
            got = ev({k: w})
            want = _subst(base, k, w)
            if got[:2] != want[:2] and got[:2] not in seen:
                seen.append(got[:2])
                options.append((k, w))
    if options:
        i = run.choose(["" if True else ""] + [f"{run.kname.get(k, 'key')} = {w!r}" for k, w in options], [0] + [spell_cost()] * len(options) if generic else [0] + [1] * len(options))
        if i == 0:
            for k, w in options:
                run.kne.setdefault(k, set()).add(w)
        else:
            k, w = options[i - 1]
            run.ksub[k] = w
            args = [tokenise(o, {k: w}) if isinstance(o, str) else o for o in ops]
            return untoken(fn(*args))
    if base[0] == "e":
        raise base[2]
    return untoken(base[1])


def spell_cost():
    """Predicates and lengths of names: the first of them on a path are decided both ways at no cost."""
    run = R()
    run.nspell += 1
    return 0 if run.nspell <= 2 else 1


def _subst(base, k, w):
    def sub(v):
        if isinstance(v, str):
            return v.replace(token(k), w)
        if isinstance(v, (list, tuple)):
            return type(v)(sub(x) for x in v)
        return v
    if base[0] == "e":
        return base
    return ("v", sub(base[1]))


def ostr_eq(a, b):
    a, b = raw(a), raw(b)
    if a == b:
        return True
    return bool(amb(lambda x, y: x == y, (a, b)))


def concretize_keys(o, sizes=()):
    """Fix the spelling of the keys in a string; where the length is asked for, also as long ones and short ones."""
    run = R()
    s = raw(o)
    for c in s:
        if is_key(c) and c not in run.ksub:
            if sizes:
                names = [None, "k" + chr(ord("a") + len(run.fresh) % 26)] + ["K" * n + str(ord(c) - 0xE000) for n in sizes]
                names = names[:1] + [x for x in names[1:] if x not in run.fresh and x not in run.kne.get(c, ())]
                i = run.choose([f"{run.kname.get(c, 'key')}: {'a name' if x is None else f'a name of {len(x)} characters'}" for x in names], [0] + [spell_cost()] * (len(names) - 1))
                if i:
                    run.ksub[c] = names[i]
                    run.fresh.add(names[i])
                    continue
            n = ord(c) - 0xE000
            run.ksub[c] = f"Key-{n}_z"
            run.fresh.add(run.ksub[c])
    run.sampled = True
    return mk(s)


_CHARMAP = {"lower", "upper", "capitalize", "title", "casefold", "swapcase"}


def charmap(o, op):
    run = R()
    out = ""
    s = raw(o)
    if op in ("capitalize",) and s and not is_key(s[0]):
        first, rest = s[0].upper(), s[1:]
        return mk(first + raw_any(charmap(mk(rest), "lower")) if rest else first)
    for piece, isk in pieces(s):
        if isk:
            key = (piece, op)
            if key not in run.derived:
                run.derived[key] = run.newkey(f"{op}({run.kname.get(piece, 'key')})")
            out += run.derived[key]
        else:
            out += getattr(piece, op)()
    return mk(out)


def raw_any(v):
    return v if isinstance(v, str) else raw(v)


def show(v, depth=0) -> str:
    if isinstance(v, OStr):
        try:
            v = mk(v.s)
        except Stop:
            pass
        if isinstance(v, str):
            return repr(v)
        names = R().kname if _cur else {}
        return repr(_PUA.sub(lambda m: "<" + names.get(m.group(), "key") + ">", v.s))
    if isinstance(v, Sym) and _cur and v.name in R().dom:
        return f"{v.name}({' | '.join(show_alt(a) for a in R().dom[v.name][:4])})"
    try:
        t = repr(v)
    except Exception:
        t = f"<{type(v).__name__}>"
    return t if len(t) < 200 else t[:200] + "..."


# ------------------------------------------------------------------ containers
def plain(k):
    """Hashable without abstract content."""
    if k is None or isinstance(k, (str, int, float, bool, bytes, type)):
        return True
    if isinstance(k, (tuple, frozenset)):
        return all(plain(x) for x in k)
    return not isinstance(k, Proxy) and not isinstance(k, (list, dict, set))


class Tracked(Proxy):
    """Container with an owner ("doc" or "global"); writes are recorded and undone."""

    __slots__ = ()

    def _touch(self, what):
        if self.owner is not None and _cur:
            run = R()
            run.events.append(("mutate", self.owner, what))
            if self.owner[0] == "global":
                saved = self._save()
                run.undo.append(lambda: self._load(saved))


def check_hashable(k):
    if isinstance(k, (list, IDict, ISet, dict, set)) and not isinstance(k, FSet):
        raise TypeError(f"unhashable type: '{'list' if isinstance(k, list) else 'dict' if isinstance(k, (IDict, dict)) else 'set'}'")
    if isinstance(k, tuple):
        for x in k:
            check_hashable(x)
    if _hash_hook is not None and isinstance(k, Proxy):
        _hash_hook(k)


_hash_hook = None
MISSING = object()


class IDict(Tracked):
    __slots__ = ("idx", "pairs", "owner", "factory", "kind")

    def __init__(self, pairs=(), owner=None, factory=None, kind="dict"):
        self.idx = {}      # plain key -> position
        self.pairs = []    # [key, value] or None
        self.owner = None
        self.factory, self.kind = factory, kind
        for k, v in pairs:
            self.set(k, v)
        self.owner = owner

    def _save(self):
        return dict(self.idx), [None if p is None else list(p) for p in self.pairs]

    def _load(self, s):
        self.idx, self.pairs = dict(s[0]), [None if p is None else list(p) for p in s[1]]

    def find(self, k):
        k = force(k)
        check_hashable(k)
        if plain(k):
            i = self.idx.get(k)
            if i is not None:
                return i
            for i, p in enumerate(self.pairs):
                if p is not None and not plain(p[0]) and eq(p[0], k):
                    return i
            return None
        for i, p in enumerate(self.pairs):
            if p is not None and eq(p[0], k):
                return i
        return None

    def get(self, k, d=None):
        i = self.find(k)
        return d if i is None else self.pairs[i][1]

    def set(self, k, v):
        self._touch(("set", k))
        k = force(k)
        i = self.find(k)
        if i is not None:
            self.pairs[i][1] = v
            return
        if plain(k):
            self.idx[k] = len(self.pairs)
        self.pairs.append([k, v])

    def delete(self, k):
        i = self.find(k)
        if i is None:
            raise KeyError(k)
        self._touch(("del", k))
        kk, v = self.pairs[i]
        self.pairs[i] = None
        if plain(kk):
            self.idx.pop(kk, None)
        return v

    def live(self):
        return [p for p in self.pairs if p is not None]

    def keys_(self):
        return [p[0] for p in self.live()]

    def vals_(self):
        return [p[1] for p in self.live()]

    def __len__(self):
        return len(self.live())

    def __iter__(self):
        n = len(self)
        for k in self.keys_():
            yield k
            if len(self) != n:
                raise RuntimeError("dictionary changed size during iteration")

    def __contains__(self, k):
        return self.find(k) is not None

    def __getitem__(self, k):
        i = self.find(k)
        if i is None:
            if self.factory is not None:
                v = self.factory()
                self.set(k, v)
                return v
            raise KeyError(k)
        return self.pairs[i][1]

    def __setitem__(self, k, v):
        self.set(k, v)

    def __delitem__(self, k):
        self.delete(k)

    def _eq(self, o):
        if not isinstance(o, IDict):
            return False
        if len(self) != len(o):
            return False
        for k, v in self.live():
            i = o.find(k)
            if i is None or not eq(v, o.pairs[i][1]):
                return False
        return True

    def __eq__(self, o):
        return eq(self, o)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "{" + ", ".join(f"{show(k)}: {show(v)}" for k, v in self.live()) + "}"

    def copy(self):
        return IDict(self.live(), None, self.factory, self.kind)


class ISet(Tracked):
    __slots__ = ("d", "owner")

    def __init__(self, items=(), owner=None):
        self.d = IDict()
        self.owner = None
        for x in items:
            self.d.set(x, None)
        self.owner = owner

    def _save(self):
        return self.d._save()

    def _load(self, s):
        self.d._load(s)

    def add(self, x):
        self._touch(("add", x))
        self.d.set(x, None)

    def __contains__(self, x):
        return x in self.d

    def __iter__(self):
        return iter(list(self.d.keys_()))

    def __len__(self):
        return len(self.d)

    def _eq(self, o):
        return isinstance(o, ISet) and len(self) == len(o) and all(x in o for x in self)

    def __eq__(self, o):
        return eq(self, o)

    def __hash__(self):
        return hash(len(self))

    def __repr__(self):
        return "{" + ", ".join(show(x) for x in self) + "}"


class FSet(ISet):
    __slots__ = ()


class IList(list):
    """A list of the document or of a module: writes are recorded."""

    owner = None

    def _touch(self, what):
        if self.owner is not None and _cur:
            run = R()
            run.events.append(("mutate", self.owner, what))
            if self.owner[0] == "global":
                saved = list(self)

                def undo(me=self, s=saved):
                    o, me.owner = me.owner, None
                    list.clear(me)
                    list.extend(me, s)
                    me.owner = o
                run.undo.append(undo)


def _mut(name):
    base = getattr(list, name)

    def f(self, *a, **k):
        self._touch((name,))
        return base(self, *a, **k)
    return f


for _n in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "__setitem__", "__delitem__", "__iadd__", "__imul__"):
    setattr(IList, _n, _mut(_n))


class IView(list):
    """keys()/items()/values() of a mapping."""

    kind = "keys"


class IdInt(int):
    """Result of id()."""


class Null(Proxy):
    """Object whose methods have no effect on the analysis (loggers and the like)."""

    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<{self.path}>"

    def __eq__(self, o):
        return isinstance(o, Null) and o.path == self.path

    def __hash__(self):
        return hash(self.path)
