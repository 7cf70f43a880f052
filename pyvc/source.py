"""Map real function objects to the AST of /repo's current source."""
from __future__ import annotations

import _collections_abc
import ast
import functools
import os
import types

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")

_INDEX = {}


class FnSrc:
    __slots__ = ("node", "file", "clsname", "qual", "is_gen", "locals_", "globals_", "nonlocals_")


def _is_gen(node):
    todo = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def _assigned(node):
    """Names local to this function."""
    out, glob, nonl = set(), set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    todo = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            todo.extend(n.decorator_list)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus inside comprehensions binds here
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    out.add(w.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split(".")[0])
        if isinstance(n, ast.Global):
            glob.update(n.names)
        if isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        todo.extend(ast.iter_child_nodes(n))
    return out - glob - nonl, glob, nonl


def make_src(node, file, clsname, qual):
    f = FnSrc()
    f.node, f.file, f.clsname, f.qual = node, file, clsname, qual
    f.is_gen = _is_gen(node)
    f.locals_, f.globals_, f.nonlocals_ = _assigned(node)
    return f


def index_file(path):
    if path in _INDEX:
        return _INDEX[path]
    with open(path) as fh:
        tree = ast.parse(fh.read(), path)
    d = {}

    def walk(node, cls, qual):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, ast.ClassDef):
                walk(ch, ch.name, qual + [ch.name])
            elif isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([ch.lineno] + [x.lineno for x in ch.decorator_list])
                d[(ch.name, line)] = make_src(ch, path, cls, ".".join(qual + [ch.name]))
                walk(ch, cls, qual + [ch.name, "<locals>"])
            elif isinstance(ch, ast.Lambda):
                d.setdefault(("<lambda>", ch.lineno), []).append(
                    make_src(ch, path, cls, ".".join(qual + ["<lambda>"])))
                walk(ch, cls, qual)
            else:
                walk(ch, cls, qual)

    walk(tree, None, [])
    _INDEX[path] = d
    return d


@functools.lru_cache(maxsize=None)
def find(fn: types.FunctionType):
    """FnSrc for a real function object, or None if it has no usable source."""
    co = fn.__code__
    path = co.co_filename
    if path == "<frozen _collections_abc>":     # compiled into the interpreter; its source is installed
        path = _collections_abc.__file__ or ""
    if not path.endswith(".py") or not os.path.exists(path):
        return None
    idx = index_file(path)
    name = co.co_name
    r = idx.get((name, co.co_firstlineno))
    if isinstance(r, list):
        r = r[0] if len(r) == 1 else None
    return r


def in_repo(fn):
    return fn.__code__.co_filename.startswith(REPO_SRC + "/")


@functools.lru_cache(maxsize=None)
def code_of(src_id):
    return None
