"""Running obligations and reporting."""
from __future__ import annotations

import json
import os
import sys
import threading
import time
import traceback

import core
import gc
from core import PyRaise, Stop, Undecided, Diverges, AnchorLost, explore, exc_name

REPO = os.environ.get("SA_REPO", "/repo")
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def big(fn):
    """Run fn on a thread with a large stack."""
    box = {}

    def go():
        try:
            box["r"] = fn()
        except BaseException as e:
            box["e"] = e
            box["tb"] = traceback.format_exc()
    sys.setrecursionlimit(1_000_000)
    threading.stack_size(768 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if "e" in box:
        if not isinstance(box["e"], (AnchorLost, Undecided)):
            sys.stderr.write(box["tb"])
        raise box["e"]
    return box["r"]


class Outcome:
    __slots__ = ("kind", "value", "exc", "site")

    def __init__(self, kind, value=None, exc=None, site=None):
        self.kind, self.value, self.exc, self.site = kind, value, exc, site

    def text(self):
        if self.kind == "raise":
            return f"raises {exc_name(self.exc)} at {self.site}"
        return f"returns {core.show(self.value)}"


class Part:
    """Result of some obligations (picklable)."""

    def __init__(self):
        self.violations = []
        self.undecided = []
        self.count = {}
        self.functions = set()
        self.samples = []

    def inc(self, k, n=1):
        self.count[k] = self.count.get(k, 0) + n

    def merge(self, o):
        self.violations += o.violations
        self.undecided += o.undecided
        for k, v in o.count.items():
            self.inc(k, v)
        self.functions |= o.functions
        self.samples = (self.samples + o.samples)[:12]


class Ctx:
    def __init__(self, world, tier, prop):
        self.w, self.tier, self.prop = world, tier, prop
        self.part = Part()
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.core_done = 0
        self.tables = {}
        self.limit = float(os.environ.get("SA_LIMIT") or (2400 if self.thorough else 420))
        self.many = 12  # enough violations to stop early

    # ------------------------------------------------------------------ obligations
    def paths(self, fn, budget=None, max_paths=20000, max_steps=3_000_000, part=None):
        """Enumerate the abstract paths of fn; yields (run, Outcome).  Paths the analysis
        cannot represent are yielded as outcome "undecided"."""
        w = self.w
        part = part or self.part

        def body():
            w.reset()
            try:
                return Outcome("return", fn())
            except PyRaise as e:
                return Outcome("raise", exc=e.exc, site=e.site)
            except Diverges as e:
                return Outcome("diverges", str(e))
            except Undecided as e:
                return Outcome("undecided", f"{e} [{w.here()}]")
            except RecursionError as e:
                return Outcome("undecided", "analysis recursion limit")
        n = 0
        try:
            for run, out in explore(body, budget, max_paths, max_steps):
                part.inc("paths")
                part.functions.update(run.visited)
                n += 1
                yield run, out
        except Undecided as e:
            yield None, Outcome("undecided", str(e))

    def violation(self, key, rule, message, run=None, out=None, where=None, part=None, detail=None):
        part = part or self.part
        d = {"key": key, "rule": rule, "message": message, "where": where or (out.site if out is not None else None)}
        if run is not None:
            d["decisions"] = run.decisions()[:60]
        if detail:
            d["detail"] = detail
        part.violations.append(d)

    def undecided(self, key, why, part=None):
        (part or self.part).undecided.append(f"{key}: {why}")

    def late(self):
        return time.time() - self.t0 > self.limit

    # ------------------------------------------------------------------ parallelism
    def pmap(self, fn, items, jobs=None):
        """Run fn(item, part) over items in forked workers."""
        items = list(items)
        jobs = jobs or min(8, os.cpu_count() or 1)
        if os.environ.get("SA_JOBS"):
            jobs = int(os.environ["SA_JOBS"])
        if jobs <= 1 or len(items) <= 2:
            for it in items:
                if self.late() or len(self.part.violations) >= self.many:
                    self.part.inc("not_reached")
                    continue
                fn(it, self.part)
            return
        import multiprocessing as mp
        import pickle
        ctx = mp.get_context("fork")
        nxt = ctx.Value("i", 0)
        bad = ctx.Value("i", 0)
        procs = []
        for j in range(min(jobs, len(items))):
            r, s = ctx.Pipe(False)

            def work(s=s):
                part = Part()
                gc.freeze()
                gc.set_threshold(50000, 20, 50)

                def go():
                    while True:
                        with nxt.get_lock():
                            i = nxt.value
                            nxt.value += 1
                        if i >= len(items):
                            return
                        if bad.value >= self.many or self.late():
                            part.inc("not_reached")
                            continue
                        n = len(part.violations)
                        try:
                            fn(items[i], part)
                        except (AnchorLost, Undecided) as e:
                            part.inc("obligations")
                            part.undecided.append(f"{items[i]!r:.120}: {type(e).__name__} {e}")
                        if len(part.violations) > n:
                            with bad.get_lock():
                                bad.value += len(part.violations) - n
                try:
                    big(go)
                    s.send_bytes(pickle.dumps(part))
                except BaseException as e:
                    s.send_bytes(pickle.dumps("".join(traceback.format_exception(e))[-3000:]))
                s.close()
                os._exit(0)
            p = ctx.Process(target=work)
            p.start()
            procs.append((p, r))
            s.close()
        for p, r in procs:
            try:
                got = pickle.loads(r.recv_bytes())
            except EOFError:
                raise Undecided("a worker process died")
            p.join()
            if isinstance(got, str):
                raise RuntimeError(got)
            self.part.merge(got)


# ---------------------------------------------------------------------- anchors
def classes_by_name(w):
    from objs import ClassV
    out = {}
    for m in w.modules.values():
        for n, c in m.ns.items():
            if isinstance(c, ClassV):
                out.setdefault(c.name, [])
                if c not in out[c.name]:
                    out[c.name].append(c)
    return out


def module_attr(w, mod, name):
    """Public name of a module, wherever it is defined now."""
    from objs import ModV
    m = w.modules.get(mod)
    if m is not None and name in m.ns:
        return m.ns[name]
    return None


def need(w, name, *mods):
    """A public class or function by its documented import path (or anywhere in the package)."""
    for m in mods:
        v = module_attr(w, m, name)
        if v is not None:
            return v
    for m in w.modules.values():
        if name in m.ns and getattr(m.ns[name], "module", m) is m:
            return m.ns[name]
    raise AnchorLost(f"{name} is not defined in the package any more")


def table(name):
    with open(os.path.join(HOME, "spec", name)) as f:
        return json.load(f)


def is_value_error(w, exc):
    return w.exc_matches(exc, (ValueError,))
