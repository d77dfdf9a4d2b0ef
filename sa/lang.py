"""Regular languages over Python strings.

Alphabet: every ASCII character by itself plus a few classes of non-ASCII characters
(each class behaves uniformly for the predicates used by Python's ``re``).  Languages are
complete DFAs; regular expressions are taken apart with the standard library's regex
parser and translated, including anchors, ``$`` before a final newline, ``\\b``-free
look-aheads at the start of an alternative, and the match/fullmatch/search modes.
"""
from __future__ import annotations

import functools
from re import _parser as sre_parse  # type: ignore[attr-defined]
from re import _constants as C  # type: ignore[attr-defined]
import re

# representatives of the non-ASCII classes
_NONASCII = [
    ("é", "letter"),      # \w, not \d, not \s, lower-case letter
    ("É", "upper"),
    ("٣", "digit"),       # \w and \d
    ("\u00a0", "space"),  # \s
    ("→", "other"),
]
CHARS = [chr(i) for i in range(128)] + [c for c, _ in _NONASCII]
N = len(CHARS)
IDX = {c: i for i, c in enumerate(CHARS)}
FULL = (1 << N) - 1
ASCII = (1 << 128) - 1


class Unsupported(Exception):
    pass


def cls_index(ch: str) -> int:
    if ch in IDX:
        return IDX[ch]
    if ch.isdigit() and re.match(r"\d", ch):
        return IDX["٣"]
    if ch.isspace():
        return IDX["\u00a0"]
    if re.match(r"\w", ch):
        return IDX["É"] if ch.isupper() else IDX["é"]
    return IDX["→"]


def mask(chars) -> int:
    m = 0
    for c in chars:
        m |= 1 << cls_index(c)
    return m


def mask_of(pred) -> int:
    m = 0
    for i, c in enumerate(CHARS):
        if pred(c):
            m |= 1 << i
    return m


class DFA:
    """Complete DFA.  trans[s] is a tuple of N targets."""

    __slots__ = ("trans", "acc", "_h")

    def __init__(self, trans, acc):
        self.trans = trans
        self.acc = acc
        self._h = None

    # canonical form (minimised, BFS numbering) makes equality structural
    def key(self):
        return (self.trans, self.acc)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.acc, self.trans))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, DFA) and hash(self) == hash(o) and self.acc == o.acc and self.trans == o.trans)

    def accepts(self, s: str) -> bool:
        q = 0
        for ch in s:
            q = self.trans[q][cls_index(ch)]
        return q in self.acc

    @property
    def empty(self) -> bool:
        return not self.acc

    @property
    def universal(self) -> bool:
        return len(self.trans) == 1 and bool(self.acc)

    def __and__(self, o):
        return _product(self, o, lambda a, b: a and b)

    def __or__(self, o):
        return _product(self, o, lambda a, b: a or b)

    def __sub__(self, o):
        return _product(self, o, lambda a, b: a and not b)

    def __invert__(self):
        return DFA(self.trans, frozenset(range(len(self.trans))) - self.acc)

    def example(self, lo: int = 0, hi: int | None = None, want=None):
        """A shortest accepted word with lo <= length <= hi, or None."""
        # layered BFS over (state); for lo > 0 walk layer by layer
        n = len(self.trans)
        live = self._live()
        limit = hi if hi is not None else lo + n + 1
        layer = {0: ""} if 0 in live else {}
        back = [dict((q, (None, None)) for q in layer)]
        steps = 0
        while True:
            if steps >= lo:
                for q in layer:
                    if q in self.acc:
                        w = []
                        cur = q
                        for k in range(steps, 0, -1):
                            p, c = back[k][cur]
                            w.append(CHARS[c])
                            cur = p
                        return "".join(reversed(w))
            if steps >= limit or not layer:
                return None
            nxt = {}
            order = _PREF
            for q in layer:
                row = self.trans[q]
                for c in order:
                    t = row[c]
                    if t in live and t not in nxt:
                        nxt[t] = (q, c)
            back.append(nxt)
            layer = nxt
            steps += 1

    def nonempty_len(self, lo: int, hi: int | None) -> bool:
        return _nonempty_len(self, lo, hi)

    def _live(self):
        return _live(self)

    def finite_words(self, limit: int = 200):
        """The words if the language is finite and small, else None."""
        out = []
        live = self._live()
        stack = [(0, "")] if 0 in live else []
        while stack:
            q, w = stack.pop()
            if len(w) > len(self.trans) + 1:
                return None
            if q in self.acc:
                out.append(w)
                if len(out) > limit:
                    return None
            for c in range(N):
                t = self.trans[q][c]
                if t in live:
                    stack.append((t, w + CHARS[c]))
                    if len(stack) > 5000:
                        return None
        return sorted(out)


_PREF = ([IDX[c] for c in "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-_./@{}#$ "] )
_PREF += [i for i in range(N) if i not in set(_PREF)]


@functools.lru_cache(maxsize=None)
def _live(d: DFA):
    n = len(d.trans)
    rev = [set() for _ in range(n)]
    for s, row in enumerate(d.trans):
        for t in set(row):
            rev[t].add(s)
    live = set(d.acc)
    stack = list(live)
    while stack:
        x = stack.pop()
        for p in rev[x]:
            if p not in live:
                live.add(p)
                stack.append(p)
    return frozenset(live)


@functools.lru_cache(maxsize=None)
def _nonempty_len(d: DFA, lo: int, hi):
    live = _live(d)
    layer = frozenset({0}) & live
    steps = 0
    limit = hi if hi is not None else lo + len(d.trans) + 1
    seen_from = {}
    while True:
        if steps >= lo and layer & d.acc:
            return True
        if steps >= limit or not layer:
            return False
        # fast-forward when the layer repeats before lo
        if layer in seen_from and steps < lo:
            period = steps - seen_from[layer]
            k = (lo - steps) // period
            if k > 0:
                steps += k * period
                seen_from = {}
                continue
        seen_from[layer] = steps
        nxt = set()
        for q in layer:
            nxt.update(d.trans[q])
        layer = frozenset(nxt) & live
        steps += 1


def minimise(trans, acc, start=0) -> DFA:
    # reachable
    order = [start]
    num = {start: 0}
    for q in order:
        for t in trans[q]:
            if t not in num:
                num[t] = len(order)
                order.append(t)
    rows = [[num[t] for t in trans[q]] for q in order]
    accs = [q in acc for q in order]
    n = len(rows)
    # Moore partition refinement with signature hashing; compress columns first
    cols = {}
    colmap = []
    tcols = list(zip(*rows))
    for col in tcols:
        colmap.append(cols.setdefault(col, len(cols)))
    ucols = list(cols)
    part = [1 if a else 0 for a in accs]
    k = len(set(part))
    while True:
        sig = {}
        new = []
        for q in range(n):
            s = (part[q],) + tuple(part[c[q]] for c in ucols)
            new.append(sig.setdefault(s, len(sig)))
        if len(sig) == k:
            break
        k = len(sig)
        part = new
    # BFS renumber from part[0]
    rep = {}
    for q in range(n):
        rep.setdefault(new[q], q)
    order = [new[0]]
    num = {new[0]: 0}
    out = []
    for b in order:
        row = []
        for t in rows[rep[b]]:
            bt = new[t]
            if bt not in num:
                num[bt] = len(order)
                order.append(bt)
            row.append(num[bt])
        out.append(tuple(row))
    return DFA(tuple(out), frozenset(num[b] for b in order if accs[rep[b]]))


@functools.lru_cache(maxsize=None)
def _product_c(a: DFA, b: DFA, op: int) -> DFA:
    f = [lambda x, y: x and y, lambda x, y: x or y, lambda x, y: x and not y][op]
    num = {(0, 0): 0}
    order = [(0, 0)]
    trans = []
    acc = set()
    for p, q in order:
        row = []
        ra, rb = a.trans[p], b.trans[q]
        for c in range(N):
            t = (ra[c], rb[c])
            i = num.get(t)
            if i is None:
                i = num[t] = len(order)
                order.append(t)
            row.append(i)
        trans.append(row)
        if f(p in a.acc, q in b.acc):
            acc.add(num[(p, q)])
    return minimise(trans, acc)


def _product(a, b, f):
    op = {(True, False): None}
    t = (bool(f(True, True)), bool(f(True, False)), bool(f(False, True)))
    op = {(True, False, False): 0, (True, True, True): 1, (False, True, False): 2}[t]
    return _product_c(a, b, op)


ALL = DFA((tuple([0] * N),), frozenset({0}))
EMPTY = DFA((tuple([0] * N),), frozenset())


# ---------------------------------------------------------------- NFA construction
class NFA:
    def __init__(self):
        self.eps = []
        self.edges = []

    def new(self):
        self.eps.append([])
        self.edges.append([])
        return len(self.eps) - 1


def _determinise(nfa: NFA, start: int, accept: int) -> DFA:
    @functools.lru_cache(maxsize=None)
    def closure(s):
        out = {s}
        st = [s]
        while st:
            x = st.pop()
            for y in nfa.eps[x]:
                if y not in out:
                    out.add(y)
                    st.append(y)
        return frozenset(out)

    init = closure(start)
    num = {init: 0}
    order = [init]
    trans = []
    acc = set()
    for S in order:
        edges = [(m, t) for s in S for (m, t) in nfa.edges[s]]
        row = []
        cache = {}
        for c in range(N):
            bit = 1 << c
            tg = tuple(sorted({t for m, t in edges if m & bit}))
            T = cache.get(tg)
            if T is None:
                u = set()
                for t in tg:
                    u |= closure(t)
                T = cache[tg] = frozenset(u)
            i = num.get(T)
            if i is None:
                i = num[T] = len(order)
                order.append(T)
                if i > 20000:
                    raise Unsupported("automaton too large")
            row.append(i)
        trans.append(row)
        if accept in S:
            acc.add(num[S])
    return minimise(trans, acc)


def _embed(nfa: NFA, d: DFA, start: int, end: int):
    base = [nfa.new() for _ in d.trans]
    nfa.eps[start].append(base[0])
    for q, row in enumerate(d.trans):
        by = {}
        for c, t in enumerate(row):
            by[t] = by.get(t, 0) | (1 << c)
        for t, m in by.items():
            nfa.edges[base[q]].append((m, base[t]))
        if q in d.acc:
            nfa.eps[base[q]].append(end)


def concat(*ds: DFA) -> DFA:
    nfa = NFA()
    cur = start = nfa.new()
    for d in ds:
        nxt = nfa.new()
        _embed(nfa, d, cur, nxt)
        cur = nxt
    return _determinise(nfa, start, cur)


def star(d: DFA) -> DFA:
    nfa = NFA()
    s = nfa.new()
    e = nfa.new()
    nfa.eps[s].append(e)
    m = nfa.new()
    m2 = nfa.new()
    nfa.eps[s].append(m)
    _embed(nfa, d, m, m2)
    nfa.eps[m2] += [m, e]
    return _determinise(nfa, s, e)


@functools.lru_cache(maxsize=None)
def lit(s: str) -> DFA:
    nfa = NFA()
    cur = start = nfa.new()
    for ch in s:
        nxt = nfa.new()
        nfa.edges[cur].append((1 << cls_index(ch), nxt))
        cur = nxt
    return _determinise(nfa, start, cur)


@functools.lru_cache(maxsize=None)
def charset(m: int) -> DFA:
    nfa = NFA()
    a, b = nfa.new(), nfa.new()
    nfa.edges[a].append((m, b))
    return _determinise(nfa, a, b)


@functools.lru_cache(maxsize=None)
def starts(s: str) -> DFA:
    return concat(lit(s), ALL)


@functools.lru_cache(maxsize=None)
def ends(s: str) -> DFA:
    return concat(ALL, lit(s))


@functools.lru_cache(maxsize=None)
def contains(s: str) -> DFA:
    return concat(ALL, lit(s), ALL)


def words(ws) -> DFA:
    d = EMPTY
    for w in ws:
        d = d | lit(w)
    return d


def without_any(chars: str) -> DFA:
    return star(charset(FULL & ~mask(chars)))


# ---------------------------------------------------------------- regular expressions
def _cat_mask(cat, ascii_only) -> int:
    table = {
        C.CATEGORY_DIGIT: lambda c: bool(re.match(r"\d", c)),
        C.CATEGORY_SPACE: lambda c: bool(re.match(r"\s", c)),
        C.CATEGORY_WORD: lambda c: bool(re.match(r"\w", c)),
    }
    neg = {
        C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT,
        C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE,
        C.CATEGORY_NOT_WORD: C.CATEGORY_WORD,
    }
    if cat in neg:
        return FULL & ~_cat_mask(neg[cat], ascii_only)
    if cat not in table:
        raise Unsupported(f"category {cat}")
    m = mask_of(table[cat])
    return m & ASCII if ascii_only else m


def _lit_mask(code, flags) -> int:
    ch = chr(code)
    m = 1 << cls_index(ch)
    if flags & re.I:
        m |= mask({ch.lower(), ch.upper()})
    return m


def _in_mask(items, flags) -> int:
    m = 0
    neg = False
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            m |= _lit_mask(av, flags)
        elif op is C.RANGE:
            lo, hi = av
            for i in range(lo, min(hi, 127) + 1):
                m |= _lit_mask(i, flags)
            if hi > 127:
                if lo <= 128 and hi >= 0x10FFFF:
                    m |= FULL & ~ASCII
                else:
                    raise Unsupported("non-ASCII range")
        elif op is C.CATEGORY:
            m |= _cat_mask(av, bool(flags & re.A))
        else:
            raise Unsupported(f"set item {op}")
    return FULL & ~m if neg else m


# Translation works right to left with continuations: L(item, K) = the set of remaining
# strings r such that some split r = x y has x matching the item and y in K.  Anchors and
# look-aheads are then plain intersections.
def _node(items, flags, K: DFA, at_start: bool, groups) -> DFA:
    """Language of remaining input for the item list followed by continuation K."""
    if not items:
        return K
    # is every item before the last zero-width?  only needed for '^'
    (op, av), rest = items[0], items[1:]
    zero = op is C.AT or op in (C.ASSERT, C.ASSERT_NOT)
    Krest = None

    def cont(k_at_start):
        return _node(rest, flags, K, k_at_start, groups)

    if op is C.AT:
        k = cont(at_start)
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if flags & re.M and av is C.AT_BEGINNING:
                raise Unsupported("multiline ^")
            return k if at_start else EMPTY
        if av is C.AT_END:
            if flags & re.M:
                raise Unsupported("multiline $")
            return k & (lit("") | lit("\n"))
        if av is C.AT_END_STRING:
            return k & lit("")
        raise Unsupported(f"anchor {av}")
    if op is C.ASSERT or op is C.ASSERT_NOT:
        direction, sub = av
        if direction < 0:
            raise Unsupported("look-behind")
        look = _node(list(sub), flags, ALL, at_start, groups)
        if op is C.ASSERT_NOT:
            look = ~look
        return cont(at_start) & look
    k = cont(False if not zero else at_start)
    if at_start and _may_be_zero(items[:1]):
        # an item that can match nothing keeps "at start" alive for what follows
        k0 = cont(True)
    else:
        k0 = None

    if op is C.LITERAL:
        return concat(charset(_lit_mask(av, flags)), k)
    if op is C.NOT_LITERAL:
        return concat(charset(FULL & ~_lit_mask(av, flags)), k)
    if op is C.ANY:
        return concat(charset(FULL if flags & re.S else FULL & ~mask("\n")), k)
    if op is C.IN:
        return concat(charset(_in_mask(av, flags)), k)
    if op is C.BRANCH:
        d = EMPTY
        for alt in av[1]:
            d = d | _node(list(alt), flags, k, at_start, groups)
        if k0 is not None and k0 != k:
            raise Unsupported("anchor after an optional item")
        return d
    if op is C.SUBPATTERN:
        gid, add, dele, sub = av
        f2 = (flags | add) & ~dele
        if groups and gid in groups:
            if at_start and k0 is not None and k0 != k:
                raise Unsupported("anchor")
            inner = _plain(list(sub), f2)
            return concat(inner & groups[gid], k)
        return _node(list(sub), f2, k, at_start, groups)
    if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
        lo, hi, sub = av
        if op is C.POSSESSIVE_REPEAT:
            raise Unsupported("possessive")
        if k0 is not None and k0 != k:
            raise Unsupported("anchor after an optional item")
        if _has_assert(sub):
            if (lo, hi) == (0, 1):
                return k | _node(list(sub), flags, k, at_start, groups)
            raise Unsupported("assertion in a repeat")
        inner = _plain(list(sub), flags)
        if hi is C.MAXREPEAT:
            if lo > 300:
                raise Unsupported("large repeat")
            return concat(*([inner] * lo), star(inner), k)
        if hi > 300:
            raise Unsupported("large repeat")
        tail = k
        for _ in range(hi - lo):
            tail = k | concat(inner, tail)
        return concat(*([inner] * lo), tail) if lo else tail
    raise Unsupported(f"regex op {op}")


def _has_assert(items) -> bool:
    for op, av in items:
        if op in (C.AT, C.ASSERT, C.ASSERT_NOT):
            return True
        if op is C.SUBPATTERN and _has_assert(av[3]):
            return True
        if op is C.BRANCH and any(_has_assert(a) for a in av[1]):
            return True
        if op in (C.MAX_REPEAT, C.MIN_REPEAT) and _has_assert(av[2]):
            return True
    return False


def _may_be_zero(items) -> bool:
    return all(sre_item_min(i) == 0 for i in items)


def sre_item_min(item) -> int:
    op, av = item
    if op in (C.AT, C.ASSERT, C.ASSERT_NOT):
        return 0
    if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
        return 0 if av[0] == 0 else av[0] * sum(sre_item_min(i) for i in av[2])
    if op is C.SUBPATTERN:
        return sum(sre_item_min(i) for i in av[3])
    if op is C.BRANCH:
        return min(sum(sre_item_min(i) for i in a) for a in av[1])
    return 1


def _plain(items, flags) -> DFA:
    if _has_assert(items):
        raise Unsupported("assertion inside a repeated or captured group")
    return _node(list(items), flags, lit(""), False, None)


@functools.lru_cache(maxsize=None)
def regex(pattern: str, flags: int = 0, mode: str = "fullmatch") -> DFA:
    """Strings s for which re.<mode>(pattern, s) succeeds."""
    try:
        tree = sre_parse.parse(pattern, flags)
    except re.error as e:
        raise Unsupported(f"bad regex: {e}")
    fl = tree.state.flags
    items = list(tree)
    if mode == "fullmatch":
        return _node(items, fl, lit(""), True, None)
    if mode == "match":
        return _node(items, fl, ALL, True, None)
    if mode == "search":
        a = _node(items, fl, ALL, True, None)
        b = _node(items, fl, ALL, False, None)
        return a | concat(charset(FULL), ALL_(), b) if not b.empty else a
    raise Unsupported(mode)


def ALL_():
    return ALL


def group_preimage(pattern: str, flags: int, mode: str, gid, lang: DFA) -> DFA:
    """Strings whose match has group gid in lang (assumes an unambiguous parse)."""
    tree = sre_parse.parse(pattern, flags)
    if isinstance(gid, str):
        gid = tree.state.groupdict[gid]
    fl = tree.state.flags
    k = lit("") if mode == "fullmatch" else ALL
    if mode == "search":
        raise Unsupported("group of search")
    if gid == 0:
        raise Unsupported("group 0")
    return _node(list(tree), fl, k, True, {gid: lang})


def group_count(pattern, flags=0):
    return sre_parse.parse(pattern, flags).state.groups


# ---------------------------------------------------------------- derived strings
def int_literal() -> DFA:
    """Strings int() accepts."""
    return regex(r"\s*[+-]?\d+(_\d+)*\s*", 0, "fullmatch")


@functools.lru_cache(maxsize=None)
def int_equal(k: int) -> DFA:
    """Strings s (of ASCII digits) with int(s) == k."""
    sign = r"\+?" if k > 0 else ("-" if k < 0 else "[+-]?")
    digits = "_?".join(str(abs(k)))
    return regex(rf"\s*{sign}(0_?)*{digits}\s*", 0, "fullmatch")


def map_preimage(d: DFA, f) -> DFA:
    """{s : f applied to every char of s is in d} for a character-wise f."""
    tr = []
    m = [cls_index(f(c)) if len(f(c)) == 1 else i for i, c in enumerate(CHARS)]
    for row in d.trans:
        tr.append([row[m[c]] for c in range(N)])
    return minimise(tr, d.acc)


def strip_preimage(d: DFA, left=True, right=True) -> DFA:
    ws = charset(_cat_mask(C.CATEGORY_SPACE, False))
    nws_l = concat(charset(FULL & ~_cat_mask(C.CATEGORY_SPACE, False)), ALL)
    nws_r = concat(ALL, charset(FULL & ~_cat_mask(C.CATEGORY_SPACE, False)))
    core = d
    if left:
        core = core & (nws_l | lit(""))
    if right:
        core = core & (nws_r | lit(""))
    parts = []
    if left:
        parts.append(star(ws))
    parts.append(core)
    if right:
        parts.append(star(ws))
    return concat(*parts)


def before_preimage(d: DFA, sep: str) -> DFA:
    """{s : s.split(sep)[0] in d}"""
    nosep = ~contains(sep)
    if len(sep) == 1:
        return (d & nosep) | concat(d & nosep, lit(sep), ALL)
    raise Unsupported("multi-character separator")


def drop_preimage(d: DFA, n: int) -> DFA:
    """{s : s[n:] in d}"""
    any1 = charset(FULL)
    out = concat(*([any1] * n), d)
    if d.accepts(""):
        for k in range(n):
            out = out | (concat(*([any1] * k)) if k else lit(""))
    return out


def take_preimage(d: DFA, n: int) -> DFA:
    """{s : s[:n] in d}"""
    any1 = charset(FULL)
    exact = concat(*([any1] * n)) if n else lit("")
    out = concat(d & exact, ALL)
    for k in range(n):
        ln = concat(*([any1] * k)) if k else lit("")
        out = out | (d & ln)
    return out


if __name__ == "__main__":
    import random, itertools
    pats = [r"^[A-Za-z0-9_\-]+$", r"^x-[\w\d\.\x2d_]+$", r"\{[^}]+\}", r"^\d+\.\d+\.\d+(-[\w\.\-]+)?$",
            r"^(?!.*\.\.)[a-zA-Z0-9._%+-]+@[a-zA-Z0-9.-]+\.[a-zA-Z]{2,}$", r"a|b|", r"(ab)*c?\Z", r"^3", r"(?i)abc", r"[^\s]*$", r"(?P<m>\d+)\.x"]
    rnd = random.Random(1)
    n = 0
    for p in pats:
        for mode in ("match", "fullmatch", "search"):
            d = regex(p, 0, mode)
            for _ in range(3000):
                s = "".join(rnd.choice("ab.{}@-_x3\n1é→٣ cA") for _ in range(rnd.randrange(0, 9)))
                assert d.accepts(s) == bool(getattr(re, mode)(p, s)), (p, mode, s)
                n += 1
            ex = d.example()
            assert ex is None or getattr(re, mode)(p, ex), (p, mode, ex)
    for p in pats:
        d = regex(p, 0, "search")
        for s in ["x-a", "x-a\n", "3.0.0", "3.0.0\n", "a@b.co", "a..b@c.de", "{a}", "{}", "x{ }y"]:
            assert d.accepts(s) == bool(re.search(p, s)), (p, s)
    assert regex("a*").nonempty_len(10000, 10500)
    assert not regex("(aaa)*").nonempty_len(10000, 10000)
    assert int_equal(3).accepts("03") and not int_equal(3).accepts("33") and int_equal(10).accepts("1_0")
    for sfun, pre in [(lambda s: s.strip(), strip_preimage), (lambda s: s.split(".")[0], lambda d: before_preimage(d, ".")),
                      (lambda s: s[2:], lambda d: drop_preimage(d, 2)), (lambda s: s[:2], lambda d: take_preimage(d, 2)), (str.lower, lambda d: map_preimage(d, str.lower))]:
        for L in (regex("a*b?"), regex("[a ]{2}"), lit("")):
            d = pre(L)
            for _ in range(2000):
                s = "".join(rnd.choice("abA. ") for _ in range(rnd.randrange(0, 6)))
                assert d.accepts(s) == L.accepts(sfun(s)), (s,)
    print("ok", n)
