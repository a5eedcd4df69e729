"""Driver: path exploration of lemmas, discharge of obligations, counterexamples."""

from __future__ import annotations

import os
import random
import shutil
import subprocess
import tempfile
import time
import traceback

import z3

from .core import *
from .interp import Interp
from .source import function_ast
from .spec import *
from .spec import Skip
from .values import *


def _quantified(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo += x.children()
    return False


class StopLemma(Exception):
    pass


class Verifier(Interp):
    def __init__(self, lemma, final_ms=8000, cvc5_recheck=False, modular=False):
        super().__init__()
        self.modular = modular
        self.lemma = lemma
        self.final_ms = final_ms
        self.results = []  # dict(label, text, status, path)
        self.candidates = []  # concrete arguments to replay
        self.undecided = []
        self.cvc5_recheck = cvc5_recheck
        self.backends = {"z3": 0, "cvc5": 0, "simplifier": 0}
        self.params = {}

    def reset_path(self, decisions):
        super().reset_path(decisions)
        self.hexes = []
        self.item_hashes = []

    # ---------------------------------------------------------------- obligations

    def prove(self, label, term, text):
        if isinstance(term, bool):
            if term:
                self.note(label, text, "discharged", "simplifier")
                return
            term = z3.BoolVal(False)
        if not z3.is_quantifier(term):
            s = z3.simplify(term)
            if z3.is_true(s):
                self.note(label, text, "discharged", "simplifier")
                return
        both = self.directions(term)
        if both:
            before, counted = len(self.results), dict(self.backends)
            for t in both:
                self.prove(label, t, text)
                if self.results[-1]["status"] != "discharged":
                    break
            last = self.results[-1]  # it is one obligation
            used = [b for b in counted if self.backends[b] > counted[b]]
            del self.results[before:]
            self.backends = counted
            self.note(label, text, last["status"], used[-1] if used else "z3")
            return
        neg = z3.Not(term)
        r = self.check(neg, timeout=min(3000, self.final_ms), mbqi=False)
        if r != z3.unsat:
            r = self.check(neg, timeout=min(1500, self.final_ms))
        if r == z3.unknown:
            r = self.restarts(neg)
        if r == z3.unknown:
            r = self.check(neg, timeout=self.final_ms)
        backend = "z3"
        model = None
        if r == z3.sat or r == z3.unknown:
            try:
                self.solver.push()
                self.solver.add(neg)
                self.solver.set("timeout", 1500)
                if self.solver.check() != z3.unsat:
                    model = self.solver.model()
            except z3.Z3Exception:
                model = None
            finally:
                self.solver.set("timeout", self.timeout_ms)
                self.solver.pop()
        if r == z3.unknown:
            r = self.retry(neg)
        if r == z3.unknown:
            c = cvc5_check(self.pc + [neg], 10)
            if c == "unsat":
                r, backend = z3.unsat, "cvc5"
        if r == z3.unsat:
            if self.cvc5_recheck and backend == "z3":
                self.second_opinion(label, neg)
            self.note(label, text, "discharged", backend)
            return
        if model is not None:
            self.candidate(model)
        self.note(label, text, "refuted" if r == z3.sat else "unknown", backend)

    def directions(self, t):
        """The parts of a conjunction, and the two directions of an equivalence of formulas with quantifiers:
        each is easier to prove alone. None if there is only one."""
        todo, out, many, inside = [((), t)], [], False, False
        while todo:
            under, t = todo.pop(0)
            if z3.is_implies(t):
                todo.insert(0, ((*under, t.arg(0)), t.arg(1)))
            elif z3.is_quantifier(t) and t.is_forall():
                inside = True
                xs = [self.fresh(t.var_sort(i), f"any.{t.var_name(i)}") for i in range(t.num_vars())]
                todo.insert(0, (under, z3.substitute_vars(t.body(), *reversed(xs))))
            elif z3.is_and(t) and t.num_args() and _quantified(t):
                many = True
                todo[:0] = [(under, x) for x in t.children()]
            elif z3.is_not(t) and z3.is_eq(t.arg(0)) and t.arg(0).arg(0).sort() == z3.BoolSort() and _quantified(t):
                a, b = t.arg(0).children()
                many = True
                todo[:0] = [((*under, a), z3.Not(b)), ((*under, z3.Not(b)), a)]
            elif z3.is_eq(t) and t.arg(0).sort() == z3.BoolSort() and (inside or _quantified(t)):
                a, b = t.children()
                many = True
                todo[:0] = [((*under, a), b), ((*under, b), a)]
            else:
                out.append(z3.Implies(z3.And(*under), t) if under else t)
        return out if many and len(out) <= 16 else None

    retries = restarted = 0

    def restarts(self, neg):
        """From scratch, a few short times with other random seeds: a proof is mostly found at once or not at all."""
        t0, r = time.time(), z3.unknown
        for seed in range(1, 7) if self.restarted < 8 else ():
            s = z3.Solver()
            s.set("timeout", 1500)
            s.set("random_seed", seed)
            s.set("smt.mbqi", False)
            s.add(*self.pc, neg)
            if s.check() == z3.unsat:
                r = z3.unsat
                break
        self.restarted += r != z3.unsat
        self.stats["solver_s"] += time.time() - t0
        if self.deadline:
            self.deadline += time.time() - t0
        return r

    def retry(self, neg):
        """z3 gave up: once more from scratch, with other random seeds (a few obligations per lemma)."""
        t0, r = time.time(), z3.unknown
        for seed in (7, 101, 23, 5, 11) if self.retries < 4 else ():
            s = z3.Solver()
            s.set("timeout", self.final_ms * 3 // 4)
            s.set("random_seed", seed)
            s.set("smt.mbqi", seed == 23)
            s.add(*self.pc, neg)
            got = s.check()
            if got == z3.unsat:
                r = got
                break
        self.retries += 1
        self.stats["retried"] = self.stats.get("retried", 0) + 1
        self.stats["solver_s"] += time.time() - t0
        if self.deadline:
            self.deadline += time.time() - t0
        return r

    second: dict = {}

    def second_opinion(self, label, neg):
        c = cvc5_check(self.pc + [neg], 10)
        self.second = {**self.second, c: self.second.get(c, 0) + 1}
        if c == "sat":
            self.undecided.append(f"{label}: cvc5 disagrees with z3")

    def note(self, label, text, status, backend):
        if status == "discharged":
            self.backends[backend] += 1
        self.results.append(dict(label=label, text=text, status=status))

    def candidate(self, model):
        try:
            args = {}
            for n, (kind, terms) in self.params.items():
                args[n] = concrete(model, kind, terms)
            self.candidates.append(args)
        except (Skip, Exception):  # noqa: BLE001
            pass

    # ---------------------------------------------------------------- running

    def run(self):
        lem = self.lemma
        t0 = time.time()
        self.deadline = t0 + lem.budget
        if lem.setup:
            lem.setup(self)
        for c in lem.contracts:
            c(self)
        if self.modular:
            lem.modular(self)
        stack = [[]]
        paths = 0
        fn = lem.fn
        node = function_ast(fn)
        completed = 0
        try:
            while stack:
                dec = stack.pop()
                paths += 1
                if paths > lem.max_paths:
                    self.undecided.append("too many paths")
                    break
                self.reset_path(dec)
                self.handling = []
                self.loop_stack = []
                try:
                    kw = {}
                    self.params = {}
                    for n, k in lem.params.items():
                        if isinstance(k, Kind):
                            ts = [z3.Const(f"{n}.{j}" if len(k.sorts) > 1 else n, s) for j, s in enumerate(k.sorts)]
                            self.params[n] = (k, ts)
                            kw[n] = self.wrap(k, ts)
                        else:
                            kw[n] = k(self, n)
                    try:
                        self.call_real(fn, node, [], kw)
                        completed += 1
                    except PyRaise as e:
                        if issubclass(e.exc.cls, Skip):
                            pass
                        elif self.check(timeout=self.final_ms) != z3.unsat:
                            self.prove(f"{lem.name}:no-exception", z3.BoolVal(False),
                                       f"unexpected {e.exc.cls.__name__}: {str(e.exc.args)[:200]}")
                except Infeasible:
                    pass
                except StopLemma:
                    break
                except Unsupported as e:
                    self.undecided.append(f"outside the subset: {e}")
                    if len(self.undecided) > 3:
                        break
                except RecursionError:
                    self.undecided.append("recursion limit")
                    break
                stack.extend(self.alts)
                if len(self.candidates) > 12:
                    break
        except Budget as e:
            self.undecided.append(str(e))
        except z3.Z3Exception as e:
            self.undecided.append(f"solver error: {e} {traceback.format_exc()[-600:]}")
        except Exception as e:  # noqa: BLE001 -- the verifier itself fails: nothing is decided
            self.undecided.append(f"engine: {type(e).__name__}: {e} {traceback.format_exc()[-600:]}")
        if not completed and not self.undecided and not [r for r in self.results if r["status"] != "discharged"]:
            self.undecided.append("vacuous: no path reaches the end of the lemma")
        self.stats["paths"] = paths
        return time.time() - t0


def concrete(model, kind, terms):
    """A Python value of the kind from a model."""
    ev = lambda t: model.eval(t, model_completion=True)
    if isinstance(kind, KConst):
        return kind.value
    if isinstance(kind, KInt):
        return kind.cls(ev(terms[0]).as_long())
    if isinstance(kind, KBool):
        return z3.is_true(ev(terms[0]))
    if isinstance(kind, KStr):
        from .interp import _z3str

        return _z3str(ev(terms[0]))
    if isinstance(kind, KAlt):
        tag, pos = ev(terms[0]).as_long(), 1
        for j, k in enumerate(kind.kinds):
            if j == tag:
                return concrete(model, k, terms[pos : pos + len(k.sorts)])
            pos += len(k.sorts)
        raise Skip
    if isinstance(kind, KTuple):
        out, pos = [], 0
        for k in kind.kinds:
            out.append(concrete(model, k, terms[pos : pos + len(k.sorts)]))
            pos += len(k.sorts)
        return tuple(out)
    if isinstance(kind, KSeq):
        n = ev(seq_len(terms[0])).as_long()
        if not 0 <= n <= 50:
            raise Skip
        return kind.cls(concrete(model, kind.ek, seq_at(terms[0], kind.ek, z3.IntVal(j))) for j in range(n))
    if isinstance(kind, KDict):
        order = terms[-1]
        n = ev(seq_len(order)).as_long()
        if not 0 <= n <= 50:
            raise Skip
        d = {}
        for j in range(n):
            kt = seq_at(order, kind.kk, z3.IntVal(j))[0]
            d[concrete(model, kind.kk, [kt])] = concrete(model, kind.vk, [z3.Select(g, kt) for g in terms[1:-1]])
        return kind.cls(d)
    raise Skip


_CVC5 = shutil.which("cvc5") or "/opt/veriftools/bin/cvc5"


def cvc5_check(assertions, seconds):
    if not _CVC5 or not os.path.exists(_CVC5):
        return "unknown"
    s = z3.Solver()
    s.add(*assertions)
    try:
        text = s.to_smt2()
    except z3.Z3Exception:
        return "unknown"
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + text)
    try:
        r = subprocess.run([_CVC5, "--strings-exp", "--full-saturate-quant", f"--tlimit={int(seconds * 1000)}", f.name],
                           capture_output=True, text=True, timeout=seconds + 5)
        out = r.stdout.strip().splitlines()
        return out[0] if out and out[0] in ("sat", "unsat") else "unknown"
    except Exception:  # noqa: BLE001
        return "unknown"
    finally:
        os.unlink(f.name)


# ------------------------------------------------------------------------------ native runs


class Gone(Exception):
    """A private name the lemma is about no longer exists: nothing is decided by it."""


def _private(name):
    return bool(name) and name.startswith("_") and not name.endswith("__")


def missing_private(fn):
    """A private attribute (of a class or module the lemma names) that does not exist any more."""
    import ast

    try:
        node = function_ast(fn)
    except Exception:  # noqa: BLE001
        return None
    env = dict(fn.__globals__)
    for n, c in zip(fn.__code__.co_freevars, fn.__closure__ or ()):
        env[n] = c.cell_contents
    local = set(fn.__code__.co_varnames)
    for x in ast.walk(node):
        if isinstance(x, ast.Attribute) and _private(x.attr):
            chain, y = [x.attr], x.value
            while isinstance(y, ast.Attribute):
                chain.append(y.attr)
                y = y.value
            if not isinstance(y, ast.Name) or y.id in local or y.id not in env:
                continue
            o = env[y.id]
            if not isinstance(o, type) and type(o).__name__ != "module":
                continue
            for a in reversed(chain):
                if not hasattr(o, a):
                    return ".".join([y.id, *reversed(chain)])
                o = getattr(o, a)
    return None


def run_native(lem, args):
    """None if the lemma holds (or its precondition fails) for concrete arguments, else the failure."""
    try:
        lem.fn(**args)
    except Skip:
        return None
    except AssertionError as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if f.filename == lem.fn.__code__.co_filename] or tb
        return f"assertion failed: {last[-1].line} {e}"
    except Exception as e:  # noqa: BLE001
        if isinstance(e, AttributeError) and _private(getattr(e, "name", "")):
            last = traceback.extract_tb(e.__traceback__)[-1]
            if last.filename == lem.fn.__code__.co_filename:
                raise Gone(str(e)) from None
        return f"unexpected {type(e).__name__}: {e}"
    return ""


def sample_native(lem, rng, n, deadline):
    """(evaluations, distinct, failure or None)."""
    done, distinct = 0, set()
    for _ in range(n):
        if time.time() > deadline:
            break
        try:
            args = lem.gen(rng) if lem.gen else {k: native_value(v, rng) for k, v in lem.params.items()}
        except Skip:
            continue
        except BadValue as e:
            return done + 1, len(distinct), (e.value, str(e))
        except Exception as e:  # noqa: BLE001 -- only legal values are generated
            tb = [f for f in traceback.extract_tb(e.__traceback__) if f.filename == lem.fn.__code__.co_filename]
            return done + 1, len(distinct), ({"the line": tb[-1].line if tb else "?"}, f"a legal value cannot be made: {type(e).__name__}: {e}")
        r = run_native(lem, args)
        if r is None:
            continue
        done += 1
        if r:
            return done, len(distinct), (args, r)
        try:
            distinct.add(repr(args))
        except Exception:  # noqa: BLE001
            pass
    return done, len(distinct), None


def check_lemma(lem, seed, tier):
    """One lemma: proof attempt plus native sampling.  Plain data, so that it can cross processes."""
    out = dict(name=lem.name, prop=lem.prop, kind="lemma", prove=lem.prove)
    rng = random.Random(f"{seed}:{lem.name}")
    t0 = time.time()
    failure = None
    gone = missing_private(lem.fn)
    if gone:
        out.update(status="undecided", undecided=[f"{gone} does not exist"], seconds=0)
        return out
    try:
        return _check_lemma(lem, out, rng, t0, failure, tier)
    except Gone as e:
        out = dict(name=lem.name, prop=lem.prop, kind="lemma", prove=lem.prove, status="undecided", undecided=[f"gone: {e}"], seconds=0)
        return out


def _check_lemma(lem, out, rng, t0, failure, tier):
    if lem.prove:
        final = 8000 if tier == "quick" else 30000
        if tier != "quick":
            lem.budget *= 4
        v = Verifier(lem, final_ms=final, cvc5_recheck=(tier != "quick"), modular=bool(lem.modular))
        v.run()
        if lem.modular and (v.undecided or any(r["status"] != "discharged" for r in v.results)):
            # the code may no longer use the contracted functions: decide with their bodies
            w = Verifier(lem, final_ms=final, cvc5_recheck=(tier != "quick"))
            w.run()
            out["without_contracts"] = True
            if any(r["status"] == "unknown" for r in w.results):
                w.undecided.append("not decided, neither with the callees' contracts nor with their bodies")
                w.results = [r for r in w.results if r["status"] != "unknown"]
            v = w
        bad = [r for r in v.results if r["status"] != "discharged"]
        labels = {}
        for r in v.results:
            st = labels.setdefault((r["label"], r["text"]), [])
            st.append(r["status"])
        out.update(
            obligations=len(v.results), discharged=len(v.results) - len(bad),
            labels=[dict(label=k[0], text=k[1], n=len(s), ok=all(x == "discharged" for x in s)) for k, s in labels.items()],
            undecided=v.undecided[:4], backends=v.backends, stats=v.stats, second=v.second,
            functions=sorted({f"{f.__module__}.{f.__qualname__}" for f in v.used if not (f.__module__ or '').startswith(("contracts", "pyvc"))}),
            assumed=sorted(set(map(str, v.used_contracts)) | set(map(str, v.assumptions))),
        )
        if bad:
            out["failed"] = bad[:5]
            for args in v.candidates[:12]:
                with lem.around():
                    r = run_native(lem, args)
                if r:
                    failure = (args, r)
                    break
        out["status"] = "undecided" if v.undecided else "proved"
        if bad:
            out["status"] = "failed" if any(b["status"] == "refuted" for b in bad) else "unproved"
    else:
        out["status"] = "bounded"
    if failure is None:
        n = lem.samples * (1 if tier == "quick" else 20)
        if out["status"] in ("failed", "unproved", "undecided"):
            n *= 10
        with lem.around():
            done, distinct, failure = sample_native(lem, rng, n, time.time() + (10 if tier == "quick" else 120))
        out.update(native=done, native_distinct=distinct)
    if failure is not None:
        try:
            out["input"] = repr(failure[0])[:3000]
        except Exception as e:  # noqa: BLE001
            out["input"] = f"(repr failed: {e}) names {list(failure[0])}"
        out["input_failure"] = failure[1][:2000]
        try:
            import base64
            import pickle

            out["pickle"] = base64.b64encode(pickle.dumps(failure[0])).decode()
        except Exception:  # noqa: BLE001
            pass
    out["seconds"] = round(time.time() - t0, 2)
    return out
