"""Exponential backtracking of regular expressions, decided on the automaton.

A backtracking matcher takes exponential time on a family of texts x y^n z exactly when its automaton (with
epsilon paths counted) can read the pump y from a state back to itself in two ways, and some z after it makes the
whole attempt fail.  Texts are restricted to a regular language (what is known about the text when it is matched).
Parts without an exact translation (look-arounds in the middle, word boundaries, back references) give no answer.
"""
from __future__ import annotations

import functools
import re

import lang
from lang import C, FULL, CHARS, N, Unsupported, sre_parse


class Nfa:
    def __init__(self):
        self.eps = []      # state -> list of epsilon targets (with multiplicity)
        self.edges = []    # state -> list of (mask, target)
        self.back = {}     # end of a repeated body -> (head, body, exit)

    def new(self):
        self.eps.append([])
        self.edges.append([])
        if len(self.eps) > 4000:
            raise Unsupported("large pattern")
        return len(self.eps) - 1


def build(n, items, flags, s, subs):
    """Thompson automaton of an item list from state s; gives the end state."""
    for op, av in items:
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if op is C.LITERAL:
                m = lang._lit_mask(av, flags)
            elif op is C.NOT_LITERAL:
                m = FULL & ~lang._lit_mask(av, flags)
            elif op is C.ANY:
                m = FULL if flags & re.S else FULL & ~lang.mask("\n")
            else:
                m = lang._in_mask(av, flags)
            t = n.new()
            n.edges[s].append((m, t))
            s = t
        elif op is C.BRANCH:
            e = n.new()
            for alt in av[1]:
                a = n.new()
                n.eps[s].append(a)
                n.eps[build(n, list(alt), flags, a, subs)].append(e)
            s = e
        elif op is C.SUBPATTERN:
            gid, add, dele, sub = av
            s = build(n, list(sub), (flags | add) & ~dele, s, subs)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            if lo > 64 or (hi is not C.MAXREPEAT and hi > 64):
                raise Unsupported("large repeat")
            for _ in range(lo):
                s = build(n, list(sub), flags, s, subs)
            if hi is C.MAXREPEAT:
                h, b, e = n.new(), n.new(), n.new()
                n.eps[s].append(h)
                n.eps[h].append(b)
                n.eps[h].append(e)
                r = n.new()
                n.eps[build(n, list(sub), flags, b, subs)].append(r)
                n.back[r] = (h, b, e)
                s = e
            else:
                e = n.new()
                for _ in range(hi - lo):
                    n.eps[s].append(e)
                    b = n.new()
                    n.eps[s].append(b)
                    s = build(n, list(sub), flags, b, subs)
                n.eps[s].append(e)
                s = e
        elif op is C.AT and av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING, C.AT_END, C.AT_END_STRING):
            t = n.new()
            n.eps[s].append(t)
            s = t
        elif op in (C.ASSERT, C.ASSERT_NOT):
            subs.append((list(av[1]), flags, av[0]))
            t = n.new()
            n.eps[s].append(t)
            s = t
        else:
            raise Unsupported(f"{op}")
    return s


def hops(n, s):
    """How often each state is reached over epsilon paths; as in sre, an iteration that
    consumed nothing ends its repeat."""
    out = {}
    bodies = {b for _, b, _ in n.back.values()}

    def go(q, entered):
        out[q] = min(2, out.get(q, 0) + 1)
        budget[0] -= 1
        if budget[0] < 0:
            raise Unsupported("many epsilon paths")
        if q in bodies:
            entered = entered | {q}
        if q in n.back:
            h, b, e = n.back[q]
            go(e if b in entered else h, entered)
        for t in n.eps[q]:
            go(t, entered)
    budget = [20000]
    go(s, frozenset())
    return out


def steps(n, start):
    """Character transitions after epsilon paths: state -> [(mask, target, multiplicity)] on the needed states."""
    tr, todo = {}, [start]
    while todo:
        q = todo.pop()
        if q in tr:
            continue
        out = []
        for p, k in hops(n, q).items():
            for m, t in n.edges[p]:
                out.append((m, t, k))
                todo.append(t)
        tr[q] = out
    return tr


def sccs(graph):
    """Tarjan, iterative; graph: node -> iterable of nodes."""
    idx, low, on, stack, comp = {}, {}, set(), [], {}
    k = 0
    for root in graph:
        if root in idx:
            continue
        work = [(root, iter(graph[root]))]
        idx[root] = low[root] = len(idx)
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for u in it:
                if u not in idx:
                    idx[u] = low[u] = len(idx)
                    stack.append(u)
                    on.add(u)
                    work.append((u, iter(graph.get(u, ()))))
                    break
                if u in on:
                    low[v] = min(low[v], idx[u])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    while True:
                        u = stack.pop()
                        on.discard(u)
                        comp[u] = k
                        if u == v:
                            break
                    k += 1
    return comp


def classes(d, masks):
    """One representative index per class of characters the automaton and the masks do not tell apart."""
    seen, out = set(), []
    for c in range(N):
        sig = (tuple(row[c] for row in d.trans), tuple(m >> c & 1 for m in masks))
        if sig not in seen:
            seen.add(sig)
            out.append(c)
    return out


def ambiguous(items, flags, text):
    """A pump (state, character) for texts of the language `text` (all of them failing), or None."""
    n = Nfa()
    subs = []
    start = n.new()
    build(n, items, flags, start, subs)
    tr = steps(n, start)
    live = text._live()
    if 0 not in live:
        return None, subs
    masks = sorted({m for es in tr.values() for m, _, _ in es})
    chars = classes(text, masks)
    # reachable (state, text state)
    seen, todo = {(start, 0)}, [(start, 0)]
    moves = {}
    for q, es in tr.items():
        by = {}
        for c in chars:
            ts = {}
            for m, t, k in es:
                if m >> c & 1:
                    ts[t] = min(2, ts.get(t, 0) + k)
            if ts:
                by[c] = ts
        moves[q] = by
    while todo:
        q, d = todo.pop()
        for c, ts in moves[q].items():
            e = text.trans[d][c]
            if e not in live:
                continue
            for t in ts:
                if (t, e) not in seen:
                    seen.add((t, e))
                    todo.append((t, e))
    # only text states on cycles matter; the pair automaton over them
    graph, dup = {}, set()
    todo = [(q, q, d) for q, d in seen]
    for v in todo:
        graph[v] = None
    while todo:
        v = todo.pop()
        p, q, d = v
        out = set()
        for c, ps in moves[p].items():
            e = text.trans[d][c]
            if e not in live:
                continue
            qs = moves[q].get(c)
            if not qs:
                continue
            for a, ka in ps.items():
                for b in qs:
                    u = (a, b, e) if a <= b else (b, a, e)
                    out.add(u)
                    if p == q and a == b and ka > 1:
                        dup.add((v, u, c))
                    if u not in graph:
                        graph[u] = None
                        todo.append(u)
                        if len(graph) > 400000:
                            raise Unsupported("large pattern")
        graph[v] = out
    comp = sccs(graph)
    for v, u, c in dup:
        if comp[v] == comp[u]:
            return CHARS[c], subs
    diag = {comp[v] for v in graph if v[0] == v[1]}
    for v in graph:
        if v[0] != v[1] and comp[v] in diag:
            for c, ps in moves[v[0]].items():
                if c in moves[v[1]]:
                    return CHARS[c], subs
    return None, subs


def anchored(items):
    return bool(items) and items[0][0] is C.AT and items[0][1] in (C.AT_BEGINNING, C.AT_BEGINNING_STRING)


@functools.lru_cache(maxsize=None)
def suffixes(d):
    n = lang.NFA()
    for _ in d.trans:
        n.new()
    for s, row in enumerate(d.trans):
        by = {}
        for c, t in enumerate(row):
            by[t] = by.get(t, 0) | 1 << c
        for t, m in by.items():
            n.edges[s].append((m, t))
    out = lang.EMPTY
    for s in d._live():
        tr, acc = d.trans, d.acc
        perm = list(range(len(tr)))
        perm[0], perm[s] = s, 0
        inv = perm
        out = out | lang.minimise([[inv[t] for t in tr[perm[i]]] for i in range(len(tr))], frozenset(inv[a] for a in acc))
    return out


@functools.lru_cache(maxsize=None)
def pump(pattern, flags, mode, text):
    """A character that can be pumped to exponential time when a text of the language is matched, or None."""
    tree = sre_parse.parse(pattern, flags)
    fl = tree.state.flags
    items = list(tree)
    multi = mode not in ("match", "fullmatch")
    if multi and not anchored(items):
        text = suffixes(text)
    fails = text & ~lang.regex(pattern, flags, "fullmatch" if mode == "fullmatch" else "match")
    # look-aheads in front restrict the texts on which the rest is tried
    rest, front = list(items), []
    while rest and rest[0][0] in (C.AT, C.ASSERT, C.ASSERT_NOT):
        front.append(rest.pop(0))
    looks = [x for x in front if x[0] is not C.AT]
    for op, av in looks:
        if av[0] < 0:
            raise Unsupported("look-behind")
        ok = lang._node(list(av[1]), fl, lang.ALL, True, None)
        bad = text & ~ok
        c, subs = ambiguous(list(av[1]), fl, bad)
        if c is not None and not subs:
            return c
        fails = fails & (ok if op is C.ASSERT else ~ok)
        text = text & (ok if op is C.ASSERT else ~ok)
    c, subs = ambiguous(rest, fl, fails)
    if c is not None and subs:
        raise Unsupported("look-around inside the pattern")
    return c


if __name__ == "__main__":
    import sys
    import time
    sys.path.insert(0, __file__.rsplit("/", 1)[0])
    import multiprocessing
    bad = [r"^(a+)+$", r"(a|a)*b", r"^(\w+[.-]?)+$", r"^([a-z0-9]+)*@", r"^3\.\d+\.\d+(-([\w.]+-?)+)?$", r"^(x+x+)+y", r"^(?:.*a)*$z", r"^(a?a?)+$", r"(\{[^}]+)+\}",
           r"^(([a-z])+.)+[A-Z]([a-z])+$", r"^(\d+\.?)+$", r"^(?!.*\.\.)(\w+\.?)+@x$", r"^(?!(a+)+b)a", r"^(a|ab|b)*$", r"((a?)*b)*c"]
    good = [r"^x-[\w\d\.\x2d_]+$", r"^[A-Za-z0-9_\-]+$", r"\{[^}]+\}", r"^\d+\.\d+\.\d+(-[\w\.\-]+)?$", r"\[\d+\]", r"^(?!.*\.\.)[a-zA-Z0-9._%+-]+@[a-zA-Z0-9.-]+\.[a-zA-Z]{2,}$",
            r"^(\w+\.)+$", r"^(a|b)*$", r"(b*)*", r"((b?)+a)*", r"^(ab?)*$", r"^[\w-]+(\.[\w-]+)*@([\w-]+\.)+[a-z]+$", r"^(a?)*$b", r"(.*)*", r"^\w+(-\w+)*$", r".*a.*b.*c"]

    def slow(p, mode):
        def run(s):
            getattr(re, mode)(p, s)
        worst = 0
        for y in ("a", "ab", "x", "0", "a.", "{a", "aB", "b"):
            for z in ("", "!", "\n\n!", "@", " "):
                for n in (14, 24, 27):
                    q = multiprocessing.Process(target=run, args=(y * n + z,))
                    q.start()
                    q.join(1.5)
                    if q.is_alive():
                        q.kill()
                        q.join()
                        return True
        return False
    for want, ps in ((True, bad), (False, good)):
        for p in ps:
            for mode in ("match", "fullmatch"):
                try:
                    got = pump(p, 0, mode, lang.ALL)
                except Unsupported as e:
                    got = e
                s = slow(p, mode)
                print("ok " if (got is not None) == s else "?? ", want, mode, p, repr(got), "slow" if s else "")
