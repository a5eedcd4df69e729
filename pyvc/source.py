"""Mechanical extraction: the AST of a live function object, taken from the file it was loaded from."""

from __future__ import annotations

import ast
import functools
import inspect
import types


@functools.lru_cache(None)
def _module_index(path: str):
    with open(path, encoding="utf-8") as f:
        tree = ast.parse(f.read(), path)
    index: dict[tuple[int, str], list[ast.AST]] = {}
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            first = min([node.lineno, *[d.lineno for d in node.decorator_list]])
            index.setdefault((first, node.name), []).append(node)
        elif isinstance(node, ast.Lambda):
            index.setdefault((node.lineno, "<lambda>"), []).append(node)
    return index


def function_ast(fn: types.FunctionType):
    code = fn.__code__
    try:
        index = _module_index(code.co_filename)
    except (OSError, SyntaxError, UnicodeDecodeError):
        return None
    nodes = index.get((code.co_firstlineno, code.co_name), [])
    if len(nodes) > 1:
        # several lambdas on one line: tell them apart by column
        for n in nodes:
            cols = [p[2] for p in code.co_positions() if p[0] == n.lineno and p[2] is not None]
            if isinstance(n, ast.Lambda) and cols and min(cols) >= n.col_offset and (
                max(cols) <= (n.end_col_offset or 10**9)
            ) and {a.arg for a in n.args.args} == set(code.co_varnames[: code.co_argcount]):
                return n
        return None
    return nodes[0] if nodes else None


@functools.lru_cache(None)
def assigned_names(node) -> frozenset[str]:
    """Names that are local to a function body (or lambda / comprehension scope)."""
    names: set[str] = set()
    nonlocals: set[str] = set()

    def visit(n, top=False):
        if not top and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if not top and isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only walrus targets leak out of a comprehension
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    names.add(sub.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            nonlocals.update(n.names)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    if isinstance(node, ast.Lambda):
        visit(node.body)
    else:
        for st in node.body:
            visit(st)
    a = node.args
    for arg in [*a.posonlyargs, *a.args, *a.kwonlyargs, a.vararg, a.kwarg]:
        if arg is not None:
            names.add(arg.arg)
    return frozenset(names - nonlocals)


@functools.lru_cache(None)
def is_generator(node) -> bool:
    if isinstance(node, ast.Lambda):
        return False

    def visit(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            return False
        return any(visit(c) for c in ast.iter_child_nodes(n))

    return any(visit(s) for s in node.body)


def unwrap_function(f):
    """The plain function behind staticmethod / classmethod / partial wrappers, if any."""
    if isinstance(f, (staticmethod, classmethod)):
        return f.__func__
    if inspect.ismethod(f):
        return f.__func__
    return f
