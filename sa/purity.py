"""Which functions depend on nothing but their arguments (so that a result may be reused)."""
from __future__ import annotations

import ast

from objs import FuncV, Wrapped, Inst, ClassV

BUILTINS = {"len", "str", "any", "all", "range", "enumerate", "isinstance", "list", "tuple", "zip", "sorted", "min", "max", "int", "bool",
            "reversed", "sum", "ord", "chr", "repr", "True", "False", "None", "ValueError", "TypeError", "KeyError", "IndexError"}
BAD = (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.Await, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.AsyncFunctionDef,
       ast.ClassDef, ast.With, ast.Delete, ast.Lambda, ast.Try)


def const(v):
    return v is None or isinstance(v, (str, int, float, bool)) or type(v) is tuple and all(const(x) for x in v)


def pure(w, f, recv, stack=()):
    if f in stack:
        return True
    n = f.node
    if not isinstance(n, ast.FunctionDef) or f.closure is not None or f.info.isgen:
        return False
    a = n.args
    if a.vararg or a.kwarg:
        return False
    for d in list(f.defaults or ()) + list((f.kwdefaults or {}).values() if isinstance(f.kwdefaults, dict) else f.kwdefaults or ()):
        if not const(d):
            return False
    params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    me = params[0] if recv is not None and params else None
    local = set(params)
    for x in walk(n.body):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            local.add(x.id)
    if me is not None and any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == me for x in walk(n.body)):
        return False
    good = set()
    for x in walk(n.body):
        if isinstance(x, BAD):
            return False
        if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
            return False
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
            v = x.func.value.id
            if v == me:
                m = w.typeattr(recv, x.func.attr)
                if isinstance(m, Wrapped) and m.kind == "staticmethod":
                    m, r = m.f, None
                else:
                    r = recv
                if not isinstance(m, FuncV) or not pure(w, m, r, stack + (f,)):
                    return False
                good.add(x.func.value)
            elif v not in local and v in ("re", "fnmatch") and x.func.attr not in ("compile",):
                good.add(x.func.value)
    for x in walk(n.body):
        if not isinstance(x, ast.Name) or not isinstance(x.ctx, ast.Load) or x in good:
            continue
        if x.id == me:
            return False
        if x.id in local:
            continue
        v = f.module.ns.get(x.id, w)
        if v is w:
            if x.id not in BUILTINS:
                return False
            continue
        if const(v):
            continue
        if isinstance(v, FuncV) and pure(w, v, None, stack + (f,)):
            continue
        return False
    return True


def walk(body):
    """All nodes of statements, annotations aside."""
    todo = list(body)
    while todo:
        x = todo.pop()
        yield x
        for name, c in ast.iter_fields(x):
            if name in ("annotation", "returns"):
                continue
            if isinstance(c, list):
                todo += [y for y in c if isinstance(y, ast.AST)]
            elif isinstance(c, ast.AST):
                todo.append(c)
