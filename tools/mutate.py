#!/opt/venv/bin/python
"""Mutation testing of the machinery (a development tool; no check uses it).

    mutate.py C04 [max-mutants] [seed]

Makes small syntactic changes to the functions the property's evidence lists, each in a scratch copy
of /repo/src, and runs the property's lemmas and scenarios against it.  Prints survivors, and - most
important - UNSOUND when a lemma is reported proved although one of its own concrete runs fails.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src"

CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def variants(fn):
    """(description, apply()->undo) for each mutation inside the function node."""
    out = []
    skip = {id(x) for n in ast.walk(fn) for a in (getattr(n, "annotation", None), getattr(n, "returns", None)) if a is not None for x in ast.walk(a)}
    for node in ast.walk(fn):
        if id(node) in skip:
            continue
        if isinstance(node, ast.Compare):
            for i, op in enumerate(node.ops):
                if type(op) in CMP:
                    out.append((f"L{node.lineno} {ast.unparse(node)}: {type(op).__name__}->{CMP[type(op)].__name__}", node, "ops", i, CMP[type(op)]()))
        elif isinstance(node, ast.BoolOp):
            out.append((f"L{node.lineno} {ast.unparse(node)}: and<->or", node, "op", None, ast.Or() if isinstance(node.op, ast.And) else ast.And()))
            for i in range(len(node.values)):
                out.append((f"L{node.lineno} {ast.unparse(node)}: drop operand {i}", node, "values", None, node.values[:i] + node.values[i + 1 :]))
        elif isinstance(node, (ast.If, ast.IfExp, ast.While)):
            out.append((f"L{node.lineno} if {ast.unparse(node.test)}: negate", node, "test", None, ast.UnaryOp(ast.Not(), node.test)))
            out.append((f"L{node.lineno} if {ast.unparse(node.test)}: True", node, "test", None, ast.Constant(True)))
            out.append((f"L{node.lineno} if {ast.unparse(node.test)}: False", node, "test", None, ast.Constant(False)))
        elif isinstance(node, ast.Constant) and isinstance(node.value, int) and not isinstance(node.value, bool):
            out.append((f"L{node.lineno} {node.value}+1", node, "value", None, node.value + 1))
        elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
            out.append((f"L{node.lineno} not {node.value}", node, "value", None, not node.value))
        elif isinstance(node, ast.Call):
            if len(node.args) >= 2:
                out.append((f"L{node.lineno} {ast.unparse(node)[:80]}: swap args", node, "args", None, [node.args[1], node.args[0], *node.args[2:]]))
            for i, k in enumerate(node.keywords):
                out.append((f"L{node.lineno} {ast.unparse(node)[:80]}: drop keyword {k.arg}", node, "keywords", None, node.keywords[:i] + node.keywords[i + 1 :]))
            if len(node.args) == 1 and not node.keywords and isinstance(node.func, ast.Name) and node.func.id in ("sorted", "set", "tuple", "list", "reversed", "frozenset"):
                out.append((f"L{node.lineno} {ast.unparse(node)[:80]}: unwrap", node, "func", None, ast.parse("(lambda x: x)", mode="eval").body))
        elif isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in node.generators:
                if g.ifs:
                    out.append((f"L{node.lineno} {ast.unparse(node)[:80]}: drop filter", g, "ifs", None, []))
        elif isinstance(node, ast.BinOp) and type(node.op) in (ast.Add, ast.Sub, ast.BitAnd, ast.BitOr):
            new = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}[type(node.op)]()
            out.append((f"L{node.lineno} {ast.unparse(node)[:80]}: other operator", node, "op", None, new))
        elif isinstance(node, (ast.Dict,)) and len(node.values) == 2:
            out.append((f"L{node.lineno} {ast.unparse(node)[:80]}: swap entries", node, "*dict", None, None))
        for field in ("body", "orelse", "finalbody"):
            stmts = getattr(node, field, None)
            if isinstance(stmts, list) and stmts and isinstance(stmts[0], ast.stmt):
                for i, s in enumerate(stmts):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, ast.FunctionDef):
                        continue
                    out.append((f"L{s.lineno} delete: {ast.unparse(s)[:80]!r}", node, field, None, (stmts[:i] + stmts[i + 1 :]) or [ast.Pass()]))
    return out


def find(tree, qual):
    body, node = tree.body, None
    for part in [p for p in qual.split(".") if p != "<locals>"]:
        node = next((n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part), None)
        if node is None:
            return None
        body = node.body
    return node if isinstance(node, ast.FunctionDef) else None


RUN = """
import sys, json, time
sys.dont_write_bytecode = True
sys.path.insert(0, {src!r}); sys.path.insert(0, {here!r})
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import importlib
import arti; assert arti.__file__.startswith({src!r}), arti.__file__
from pyvc import spec, verify
import check
out = dict(status='survived', by=[])
try:
    importlib.import_module('contracts.' + {prop!r}.lower())
except Exception as e:
    print(json.dumps(dict(status='load', by=[repr(e)[:200]]))); raise SystemExit
tasks = [("lemma", l, None) for l in spec.LEMMAS.get({prop!r}, [])] + [("scenario", s, range(min(s.runs, 40))) for s in spec.SCENARIOS.get({prop!r}, [])]
for kind, obj, extra in tasks:
    if kind == 'lemma':
        obj.budget = min(obj.budget, 20)
        r = verify.check_lemma(obj, 1, 'quick')
        if r.get('input'):
            out['by'].append(r['name'] + ':input')
            if r['status'] == 'proved' and 'value' not in r['input'][:10]: out.setdefault('unsound', []).append([r['name'], r['input'], r['input_failure']])
        elif r['status'] in ('failed', 'unproved'):
            out['by'].append(r['name'] + ':obligation')
        elif r['status'] == 'undecided':
            out.setdefault('undecided', []).append(r['name'])
    else:
        r = check.run_scenario(obj, extra, 1)
        if r.get('failure'): out['by'].append(r['name'] + ':scenario')
    if len(out['by']) > 3: break
if out['by']: out['status'] = 'killed'
print(json.dumps(out))
"""


def main():
    prop = sys.argv[1]
    limit = int(sys.argv[2]) if len(sys.argv) > 2 else 60
    rng = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    ev = json.load(open(f"{HERE}/evidence/{prop}.json"))
    names = set(ev["coverage"]["functions_under_contract"])
    names |= set(sys.argv[4].split(",")) if len(sys.argv) > 4 else set()
    jobs = []
    for name in sorted(names):
        parts = name.split(".")
        for cut in range(len(parts) - 1, 0, -1):
            for suffix in (".py", "/__init__.py"):
                f = f"{SRC}/{'/'.join(parts[:cut])}{suffix}"
                if os.path.exists(f):
                    break
            else:
                continue
            break
        else:
            continue
        tree = ast.parse(open(f).read())
        fn = find(tree, ".".join(parts[cut:]))
        if fn is None:
            continue
        for k, v in enumerate(variants(fn)):
            jobs.append((f, ".".join(parts[cut:]), k, v[0]))
    rng.shuffle(jobs)
    jobs = jobs[:limit]
    print(f"{prop}: {len(jobs)} mutants of {len(names)} functions", flush=True)

    def run(job):
        f, qual, k, desc = job
        d = tempfile.mkdtemp(prefix="vp-mut-")
        try:
            shutil.copytree(SRC, d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
            g = d + "/src" + f[len(SRC):]
            tree = ast.parse(open(g).read())
            fn = find(tree, qual)
            _, node, field, i, new = variants(fn)[k]
            if field == "*dict":
                node.keys, node.values = node.keys[::-1], node.values[::-1]
            elif i is None:
                setattr(node, field, new)
            else:
                getattr(node, field)[i] = new
            open(g, "w").write(ast.unparse(ast.fix_missing_locations(tree)))
            env = dict(os.environ, PYTHONHASHSEED="0", TMPDIR=d)
            env.pop("PYTHONPATH", None)
            r = subprocess.run(["/opt/venv/bin/python", "-c", RUN.format(src=d + "/src", here=HERE, prop=prop)], capture_output=True, text=True,
                               timeout=600, env=env, cwd=d)
            try:
                return job, json.loads(r.stdout.strip().splitlines()[-1])
            except Exception:
                return job, dict(status="crash", by=[r.stderr[-600:]])
        except subprocess.TimeoutExpired:
            return job, dict(status="timeout", by=[])
        finally:
            shutil.rmtree(d, ignore_errors=True)

    counts = {}
    with ThreadPoolExecutor(8) as ex:
        for (f, qual, k, desc), r in ex.map(run, jobs):
            counts[r["status"]] = counts.get(r["status"], 0) + 1
            if r.get("unsound"):
                print("UNSOUND", qual, desc, r["unsound"], flush=True)
            elif r["status"] != "killed":
                print(r["status"].upper(), qual, desc, r.get("undecided", ""), r["by"], flush=True)
            elif not any(":obligation" in b or ":input" in b for b in r["by"]):
                print("  only-scenario", qual, desc, r.get("undecided", ""), flush=True)
    print(counts)


main()
