"""Path-exploring symbolic state: solver, branching, undo log, kinds <-> values, equality, folds."""

from __future__ import annotations

import time

import z3

from .values import *
from .values import _stamp
from .values import _pattern_ok
from .values import _base_key

MAX_PATHS = 400


class Infeasible(Exception):
    pass


class Budget(Exception):
    pass


class PyRaise(Exception):
    """An exception of the interpreted program."""

    def __init__(self, exc):
        self.exc = exc


class Control(Exception):
    pass


class Ret(Control):
    def __init__(self, value, frame=None):
        self.value, self.frame = value, frame


class Brk(Control):
    def __init__(self, tag):
        self.tag = tag


class Cont(Control):
    def __init__(self, tag):
        self.tag = tag


class NPath:
    __slots__ = ("conds", "outcome", "value", "mods", "facts", "pure")

    def __init__(self, conds, outcome, value, mods, facts):
        self.conds, self.outcome, self.value, self.mods, self.facts = conds, outcome, value, mods, facts

    @property
    def cond(self):
        return z3.And(*self.conds) if self.conds else z3.BoolVal(True)


def free_consts(t, _cache={}):
    """Names of the uninterpreted constants (0-ary) occurring in a term."""
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
    return out


class Core:
    branch_ms = 120

    def __init__(self, timeout_ms=2500):
        self.timeout_ms = timeout_ms
        self.deadline = None
        self.stats = {"checks": 0, "solver_s": 0.0, "paths": 0}
        self.reset_path([])
        self.literals = {}
        self.assumptions = set()
        self.used = set()  # interpreted functions
        self.used_contracts = set()
        self.used_models = set()

    # -------------------------------------------------------------------------- path state

    def reset_path(self, decisions):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.mbqi = True
        self.pc = []
        self.decisions = list(decisions)
        self.pos = 0
        self.alts = []
        self.log = []
        self.binders = []  # z3 constants of enclosing symbolic loops
        self.conds = []
        self.facts = []
        self.counter = 0
        self.folds = []
        self.loop_depth = 0
        self.nested = 0
        self.tested = []
        self.order_cache = {}
        self.seqterm_cache = {}
        self.objects = {}
        self.fact_seen = {}
        self.abstractions = []
        self.ghost = {}

    def fresh_name(self, base):
        self.counter += 1
        return f"{base}!{self.counter}"

    def fresh(self, sort, base="v"):
        name = self.fresh_name(base)
        if self.binders:
            f = z3.Function(name, *[b.sort() for b in self.binders], sort)
            return f(*self.binders)
        return z3.Const(name, sort)

    def fresh_val(self, kind, base="v"):
        return self.wrap(kind, [self.fresh(s, base) for s in kind.sorts])

    def check(self, *extra, timeout=None, mbqi=True):
        if mbqi != self.mbqi:
            self.mbqi = mbqi
            self.solver.set("smt.mbqi", mbqi)
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget of this contract exhausted")
        t0 = time.time()
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check(*extra)
        if timeout:
            self.solver.set("timeout", self.timeout_ms)
        self.stats["checks"] += 1
        self.stats["solver_s"] += time.time() - t0
        return r

    def assume(self, t):
        """A condition of the current path."""
        if isinstance(t, bool):
            if not t:
                raise Infeasible
            return
        t = z3.simplify(t) if z3.is_bool(t) and not z3.is_quantifier(t) else t
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise Infeasible
        self.solver.add(t)
        self.pc.append(t)
        self.conds.append(t)

    def fact(self, t):
        """Something that holds regardless of the path (definitions, type invariants)."""
        if isinstance(t, bool) or z3.is_true(t):
            return
        key = t.get_id()
        if key in self.fact_seen and not self.nested:
            return
        if not self.nested:
            self.fact_seen[key] = t
        self.solver.add(t)
        self.pc.append(t)
        self.facts.append((t, list(self.conds)))

    def axiom(self, t):
        """Something that holds whatever the state: no part of it depends on the path or on an enclosing loop."""
        self.fact(t)
        if self.facts and self.facts[-1][0] is t:
            self.facts[-1] = (t, None)

    def set(self, obj, slot, value):
        """The only way state changes: logged, so that it can be undone."""
        if slot[0] == "local":
            d = obj
            old = d.get(slot[1], UNBOUND)
            self.log.append((obj, slot, old))
            if value is UNBOUND:
                d.pop(slot[1], None)
            else:
                d[slot[1]] = value
        elif slot[0] == "field":
            old = obj.f.get(slot[1], UNBOUND)
            self.log.append((obj, slot, old))
            if value is UNBOUND:
                obj.f.pop(slot[1], None)
            else:
                obj.f[slot[1]] = value
        elif slot[0] == "ghost":
            old = self.ghost.get(slot[1], UNBOUND)
            self.log.append((obj, slot, old))
            if value is UNBOUND:
                self.ghost.pop(slot[1], None)
            else:
                self.ghost[slot[1]] = value
        else:
            self.log.append((obj, slot, obj.v))
            obj.v = value

    def get_slot(self, obj, slot):
        if slot[0] == "local":
            return obj.get(slot[1], UNBOUND)
        if slot[0] == "field":
            return obj.f.get(slot[1], UNBOUND)
        if slot[0] == "ghost":
            return self.ghost.get(slot[1], UNBOUND)
        return obj.v

    def rollback(self, mark):
        while len(self.log) > mark:
            obj, slot, old = self.log.pop()
            if slot[0] == "local":
                if old is UNBOUND:
                    obj.pop(slot[1], None)
                else:
                    obj[slot[1]] = old
            elif slot[0] == "field":
                if old is UNBOUND:
                    obj.f.pop(slot[1], None)
                else:
                    obj.f[slot[1]] = old
            elif slot[0] == "ghost":
                if old is UNBOUND:
                    self.ghost.pop(slot[1], None)
                else:
                    self.ghost[slot[1]] = old
            else:
                obj.v = old

    # -------------------------------------------------------------------------- branching

    def branch(self, c) -> bool:
        if isinstance(c, bool):
            return c
        if isinstance(c, SBool):
            c = c.t
        if not z3.is_quantifier(c):
            c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            return self.took(c, d)
        rt = self.check(c, timeout=self.branch_ms, mbqi=False)
        if rt == z3.unsat:
            # cross-check that the path itself is still feasible
            if self.check(timeout=self.branch_ms, mbqi=False) == z3.unsat:
                raise Infeasible
            d = 3
        else:
            rf = self.check(z3.Not(c), timeout=self.branch_ms, mbqi=False)
            d = True
            if rf != z3.unsat:
                self.alts.append(self.decisions[: self.pos] + [False])
            else:
                d = 2
        self.decisions.append(d)
        self.pos += 1
        return self.took(c, d)

    def took(self, c, d):
        """Record a decision: True or False (a condition of the path), 2 or 3 (implied by what is known)."""
        if d is True or d is False:
            self.assume(c if d else z3.Not(c))
            return d
        self.given(c if d == 2 else z3.Not(c))
        return d == 2

    def choose(self, n, base="choice"):
        """A free choice among n alternatives (all of them are explored)."""
        for k in range(n - 1):
            if self.pos < len(self.decisions):
                d = self.decisions[self.pos]
                self.pos += 1
            else:
                d = True
                self.alts.append(self.decisions[: self.pos] + [False])
                self.decisions.append(d)
                self.pos += 1
            if d:
                return k
        return n - 1

    def valid(self, t, timeout=None):
        """True if the path condition implies t (False: refuted or unknown)."""
        if isinstance(t, bool):
            return t
        return self.check(z3.Not(t), timeout=timeout) == z3.unsat

    def explore(self, thunk, max_paths=64):
        """All ways `thunk` can go from the current state; the state is left unchanged."""
        saved = (self.decisions, self.pos, self.alts, self.conds, self.facts, self.fact_seen)
        out = []
        stack = [[]]
        self.nested += 1
        try:
            while stack:
                if len(out) > max_paths:
                    raise Unsupported("too many paths in a nested exploration")
                prefix = stack.pop()
                self.decisions, self.pos, self.alts = list(prefix), 0, []
                self.conds, self.facts = [], []
                mark = len(self.log)
                pcn = len(self.pc)
                tested = list(self.tested)
                ocache = dict(self.order_cache)
                scache = dict(self.seqterm_cache)
                isa_seen = {k: dict(v) for k, v in self.isa_seen.items()}
                nfolds = len(self.folds)
                self.solver.push()
                feasible = True
                outcome, value = "normal", None
                try:
                    value = thunk()
                except Infeasible:
                    feasible = False
                except Ret as e:
                    outcome, value = "return", e
                except Brk as e:
                    outcome, value = "break", e
                except Cont as e:
                    outcome, value = "continue", e
                except PyRaise as e:
                    outcome, value = "raise", e
                finally:
                    mods = {}
                    for obj, slot, old in self.log[mark:]:
                        k = (id(obj), slot)
                        if k not in mods:
                            mods[k] = [obj, slot, old, None]
                    for m in mods.values():
                        m[3] = self.get_slot(m[0], m[1])
                    conds, facts = self.conds, self.facts
                    self.rollback(mark)
                    del self.pc[pcn:]
                    self.solver.pop()
                    self.tested = tested
                    self.order_cache = ocache
                    self.seqterm_cache = scache
                    self.isa_seen = isa_seen
                    stack.extend(self.alts)
                if feasible:
                    out.append(NPath(conds, outcome, value, mods, facts))
        finally:
            self.nested -= 1
            (self.decisions, self.pos, self.alts, self.conds, self.facts, self.fact_seen) = saved
        return out

    # -------------------------------------------------------------------------- kinds

    def kind_of(self, v) -> Kind:
        if v is None:
            return KConst(None)
        if isinstance(v, SAlt):
            ks = [self.kind_of(x) for _, x in v.alts]
            return self.join_all(ks)
        if isinstance(v, (bool, SBool)):
            return KBool()
        if isinstance(v, SInt):
            return KInt(v.cls)
        if isinstance(v, int):
            return KInt(type(v))
        if isinstance(v, (str, SStr)):
            return KStr()
        if isinstance(v, SObj):
            return KObj(v.cls, v.exact)
        if isinstance(v, tuple):
            return KTuple([self.kind_of(x) for x in v])
        if isinstance(v, SSeq):
            ek = v.ek
            v = self.expand(v)
            for p in v.parts:
                if isinstance(p, Lit):
                    for x in p.items:
                        k = self.kind_of(x)
                        ek = k if ek is None else self.join(ek, k)
                elif v.ek is None and not isinstance(p, Sym):
                    raise Unsupported("the kind of a composed sequence")
                elif v.ek is None:
                    i = z3.Int("ki?")
                    self.binders.append(i)
                    try:
                        k = self.kind_of(self.content(p.at(i)))
                    finally:
                        self.binders.pop()
                    ek = k if ek is None else self.join(ek, k)
            return KSeq(ek, v.cls)
        if isinstance(v, SDict):
            return KDict(v.kk, v.vk, v.cls)
        if isinstance(v, CDict):
            kk = vk = None
            for k, x in v.d.items():
                a, b = self.kind_of(k), self.kind_of(x)
                kk = a if kk is None else self.join(kk, a)
                vk = b if vk is None else self.join(vk, b)
            return KDict(kk, vk, v.cls)
        if isinstance(v, SSet):
            return KSet(v.kk, v.cls)
        if isinstance(v, CSet):
            kk = None
            for x in v.items:
                a = self.kind_of(x)
                kk = a if kk is None else self.join(kk, a)
            return KSet(kk, v.cls)
        if isinstance(v, (set, frozenset)):
            return self.kind_of(CSet(tuple(v), type(v)))
        return KConst(v)

    def join_all(self, ks):
        k = ks[0]
        for x in ks[1:]:
            k = self.join(k, x)
        return k

    def join(self, a: Kind, b: Kind) -> Kind:
        if a == b:
            return a
        if isinstance(a, KAlt) or isinstance(b, KAlt):
            ks = []
            for x in (*(a.kinds if isinstance(a, KAlt) else (a,)), *(b.kinds if isinstance(b, KAlt) else (b,))):
                for j, y in enumerate(ks):
                    m = self._join_simple(x, y)
                    if m is not None:
                        ks[j] = m
                        break
                else:
                    ks.append(x)
            return ks[0] if len(ks) == 1 else KAlt(ks)
        m = self._join_simple(a, b)
        return m if m is not None else KAlt([a, b])

    def _join_simple(self, a, b):
        if a == b:
            return a
        if isinstance(a, KInt) and isinstance(b, KInt):
            return None
        if isinstance(b, KObj) and b.cls is Unseen:
            a, b = b, a
        if isinstance(a, KObj) and a.cls is Unseen and isinstance(b, KObj):
            return b
        if isinstance(a, KObj) and a.cls is Unseen and isinstance(b, KConst) and b.value is not None:
            return KObj(type(b.value))
        if isinstance(a, KObj) and isinstance(b, KObj):
            return KObj(_common(a.cls, b.cls), False)
        if isinstance(a, KConst) and isinstance(b, KObj):
            a, b = b, a
        if isinstance(a, KObj) and isinstance(b, KConst) and b.value is not None:
            return KObj(_common(a.cls, type(b.value)), False)
        if isinstance(a, KSeq) and isinstance(b, KSeq) and a.cls is b.cls:
            ek = a.ek if b.ek is None else b.ek if a.ek is None else self.join(a.ek, b.ek)
            return KSeq(ek, a.cls)
        if isinstance(a, KTuple) and isinstance(b, KSeq):
            a, b = b, a
        if isinstance(a, KSeq) and isinstance(b, KTuple) and a.cls is tuple:
            ek = a.ek
            for k in b.kinds:
                ek = k if ek is None else self.join(ek, k)
            return KSeq(ek, tuple)
        if isinstance(a, KTuple) and isinstance(b, KTuple):
            if len(a.kinds) == len(b.kinds):
                return KTuple([self.join(x, y) for x, y in zip(a.kinds, b.kinds)])
            ek = None
            for k in (*a.kinds, *b.kinds):
                ek = k if ek is None else self.join(ek, k)
            return KSeq(ek, tuple)
        if isinstance(a, KDict) and isinstance(b, KDict) and a.cls is b.cls:
            if a.kk is None:
                return b
            if b.kk is None:
                return a
            return KDict(self.join(a.kk, b.kk), self.join(a.vk, b.vk), a.cls)
        if isinstance(a, KSet) and isinstance(b, KSet) and a.cls is b.cls:
            if a.kk is None:
                return b
            if b.kk is None:
                return a
            return KSet(self.join(a.kk, b.kk), a.cls)
        return None

    def wrap(self, kind: Kind, terms):
        if isinstance(kind, KConst):
            return kind.value
        if isinstance(kind, KInt):
            v = SInt(terms[0], kind.cls)
            self.type_invariant(v)
            return v
        if isinstance(kind, KBool):
            return SBool(terms[0])
        if isinstance(kind, KStr):
            return SStr(terms[0])
        if isinstance(kind, KBytes):
            return SObj(terms[0], bytes, True)
        if isinstance(kind, KObj):
            return SObj(terms[0], object if kind.cls is Unseen else kind.cls, kind.exact)
        if isinstance(kind, KAlt):
            tag, pos, alts = terms[0], 1, []
            for j, k in enumerate(kind.kinds):
                alts.append((tag == j, self.wrap(k, terms[pos : pos + len(k.sorts)])))
                pos += len(k.sorts)
            self.fact(z3.And(tag >= 0, tag < len(kind.kinds)))
            return SAlt(alts)
        if isinstance(kind, KTuple):
            pos, out = 0, []
            for k in kind.kinds:
                out.append(self.wrap(k, terms[pos : pos + len(k.sorts)]))
                pos += len(k.sorts)
            return tuple(out)
        if isinstance(kind, KSeq):
            if kind.ek is None:
                return SSeq((), None, kind.cls)
            return self.seq_of_term(terms[0], kind.ek, kind.cls)
        if isinstance(kind, KDict):
            if kind.kk is None:
                return CDict({}, kind.cls)
            return SDict(terms[0], terms[1:-1], kind.kk, kind.vk, terms[-1], kind.cls)
        if isinstance(kind, KSet):
            if kind.kk is None:
                return CSet((), kind.cls)
            return SSet(terms[0], kind.kk, kind.cls)
        raise Unsupported(f"wrap {kind}")

    def seq_of_term(self, t, ek, cls=tuple):
        n = seq_len(t)
        self.fact(n >= 0)
        return SSeq([Sym(n, lambda i: self.wrap(ek, seq_at(t, ek, i)), t)], ek, cls)

    def unwrap(self, kind: Kind, v):
        """The z3 terms representing `v` as a value of `kind`."""
        if isinstance(kind, KConst):
            if v is kind.value or (not isinstance(v, Val) and type(v) is type(kind.value) and v == kind.value):
                return []
            raise Unsupported(f"{v!r} is not the constant {kind.value!r}")
        if isinstance(v, SAlt) and not isinstance(kind, KAlt):
            alts = [(c, self.unwrap(kind, x)) for c, x in v.alts]
            return ite_terms(alts)
        if isinstance(kind, KInt):
            if isinstance(v, SInt):
                if not issubclass(v.cls, kind.cls):
                    raise Unsupported(f"{v} is not a {kind}")
                return [v.t]
            if isinstance(v, SBool):
                return [z3.If(v.t, z3.IntVal(1), z3.IntVal(0))]
            if isinstance(v, int):
                return [z3.IntVal(int(v))]
        elif isinstance(kind, KBool):
            if isinstance(v, SBool):
                return [v.t]
            if isinstance(v, bool):
                return [z3.BoolVal(v)]
        elif isinstance(kind, KStr):
            if isinstance(v, SStr):
                return [v.t]
            if isinstance(v, str):
                return [z3.StringVal(v)]
        elif isinstance(kind, (KObj, KBytes)):
            return [self.ref(v)]
        elif isinstance(kind, KAlt):
            if isinstance(v, SAlt):
                return ite_terms([(c, self.unwrap(kind, x)) for c, x in v.alts])
            vk = self.kind_of(self.content(v) if isinstance(v, (Cell, PathCell)) else v)
            best = None
            for j, k in enumerate(kind.kinds):
                if k == vk or (isinstance(k, KConst) and isinstance(vk, KConst) and k.value is vk.value):
                    best = j
                    break
            if best is None:
                for j, k in enumerate(kind.kinds):
                    if self._join_simple(k, vk) == k:
                        best = j
                        break
            if best is None:
                raise Unsupported(f"{v!r} does not fit {kind}")
            out = [z3.IntVal(best)]
            for j, k in enumerate(kind.kinds):
                out += self.unwrap(k, v) if j == best else [default_term(s) for s in k.sorts]
            return out
        elif isinstance(kind, KTuple):
            if isinstance(v, tuple) and len(v) == len(kind.kinds):
                return [t for k, x in zip(kind.kinds, v) for t in self.unwrap(k, x)]
            if isinstance(v, SSeq):
                items = self.concrete_items(v)
                if items is not None and len(items) == len(kind.kinds):
                    return [t for k, x in zip(kind.kinds, items) for t in self.unwrap(k, x)]
        elif isinstance(kind, KSeq):
            return [self.seq_term(self.as_seq(v), kind.ek)] if kind.ek is not None else []
        elif isinstance(kind, KDict):
            if kind.kk is None:
                return []
            d = self.as_sdict(v, kind.kk, kind.vk)
            return [d.has, *d.gets, self.dict_order_term(d)]
        elif isinstance(kind, KSet):
            if kind.kk is None:
                return []
            return [self.as_sset(v, kind.kk).has]
        raise Unsupported(f"{v!r} does not fit {kind}")

    def ref(self, v):
        """The opaque identity of a value."""
        if isinstance(v, SObj):
            if v.over:
                return self.materialize(v)
            return v.t
        if isinstance(v, SStr):
            return ufun("str2ref", z3.StringSort(), Ref)(v.t)
        if isinstance(v, SInt):
            return ufun("int2ref", z3.IntSort(), Ref)(v.t)
        if isinstance(v, SBool):
            return ufun("bool2ref", z3.BoolSort(), Ref)(v.t)
        if isinstance(v, str):
            return ufun("str2ref", z3.StringSort(), Ref)(z3.StringVal(v))
        if isinstance(v, bool):
            return ufun("bool2ref", z3.BoolSort(), Ref)(z3.BoolVal(v))
        if isinstance(v, int):
            return ufun("int2ref", z3.IntSort(), Ref)(z3.IntVal(int(v)))
        if isinstance(v, SAlt):
            return ite_terms([(c, [self.ref(x)]) for c, x in v.alts])[0]
        if isinstance(v, (SSeq, SDict, SSet, CSet, CDict, tuple)) and is_symbolic(v):
            k = self.kind_of(v)
            ts = self.unwrap(k, v)
            if not ts:
                return z3.Const(f"obj:{k.key}", Ref)
            return ufun(f"ref:{k.key}", *[t.sort() for t in ts], Ref)(*ts)
        if isinstance(v, Inst) and "__abs__" in v.f:
            return self.ref(v.f["__abs__"])
        if isinstance(v, Val):
            raise Unsupported(f"no opaque identity for {v!r}")
        key = None
        for k, (o, t) in self.objects.items():
            if o is v or (type(o) is type(v) and _safe_eq(o, v)):
                return t
        t = z3.Const(f"obj:{type(v).__name__}:{len(self.objects)}:{getattr(v, '__name__', '')}", Ref)
        for o, u in list(self.objects.values()):
            self.solver.add(t != u)
            self.pc.append(t != u)
        self.objects[len(self.objects)] = (v, t)
        return t

    def materialize(self, v: SObj):
        """A term for an object that is a copy of another one with some attributes replaced."""
        key = ("mat", v.t.get_id(), tuple(sorted((a, id(x)) for a, x in v.over.items())))
        if key in self.order_cache:
            return self.order_cache[key]
        names = sorted(v.over)
        ts, sig = [v.t], []
        for a in names:
            k = self.attr_kind(v, a) or self.kind_of(v.over[a])
            u = self.unwrap(k, v.over[a])
            ts += u
            sig.append(f"{a}:{k.key}")
        t = ufun("copy{" + ",".join(sig) + "}", *[x.sort() for x in ts], Ref)(*ts)
        self.order_cache[key] = t
        self.order_cache[(*key, 'keep')] = v  # the identities in the key stay valid
        for a in names:
            k = self.attr_kind(v, a) or self.kind_of(v.over[a])
            for f, u in zip(self.attr_terms(t, v.cls, a, k), self.unwrap(k, v.over[a])):
                self.fact(f == u)
        cls = self.nominal_class(v)
        for (c, a), k in list(self.attr_seen.items()):
            if a not in names and issubclass(cls, c):
                for f, u in zip(self.attr_terms(t, c, a, k), self.attr_terms(v.t, c, a, k)):
                    self.fact(f == u)
        self.copies.append((t, v.t, frozenset(names), cls))
        return t

    # hooks overridden by the interpreter
    def attr_kind(self, v, name):
        return None

    def attr_terms(self, t, cls, name, kind):
        return [ufun(f"attr:{name}:{j}:{s.sexpr()}", Ref, s)(t) for j, s in enumerate(kind.sorts)]

    attr_seen: dict = {}
    copies: list = []

    def nominal_class(self, v):
        return v.cls

    def type_invariant(self, v):
        pass

    # -------------------------------------------------------------------------- sequences

    def content(self, v):
        """The immutable content of a mutable container (or the value itself)."""
        if isinstance(v, Cell):
            m = self.ghost.get(("moved", id(v)))
            if m is not None and m[1] != self.ghost.get("path-mutations", 0):
                raise Unsupported("a container that was stored in another one and perhaps changed there")
            return v.v
        if isinstance(v, PathCell):
            p = self.content(v.parent)
            vk = p.vk if isinstance(p, SDict) and [s.sexpr() for s in p.vk.sorts] == [s.sexpr() for s in v.vk.sorts] else v.vk
            d = self.as_sdict(p, v.key[0], vk)
            kt = self.unwrap(v.key[0], v.key[1])[0]
            return self.wrap(vk, [select(g, kt) for g in d.gets])
        return v

    def set_content(self, cell, v):
        if isinstance(cell, Cell):
            if ("moved", id(cell)) in self.ghost:
                raise Unsupported("a change of a container that was stored in another one")
            self.set(cell, ("v",), v)
        elif isinstance(cell, PathCell):
            if "path-frozen" in self.ghost:
                raise Unsupported("a change of a container that was stored in another one")
            self.set(self, ("ghost", "path-mutations"), next(_stamp))
            parent = self.content(cell.parent)
            vk = self.join(cell.vk, self.kind_of(v))
            if [s.sexpr() for s in vk.sorts] != [s.sexpr() for s in cell.vk.sorts]:
                vk = cell.vk
            self.set_content(cell.parent, self.dict_store(parent, cell.key[1], v, cell.key[0], vk))
        else:
            raise Unsupported(f"mutation of {cell!r}")

    def as_seq(self, v) -> SSeq:
        v = self.content(v)
        if isinstance(v, SSeq):
            return v
        if isinstance(v, (tuple, list)):
            return SSeq([Lit(v)], None, type(v) if type(v) in (tuple, list) else tuple)
        if isinstance(v, range):
            return SSeq([Lit(tuple(v))], None, tuple)
        raise Unsupported(f"{v!r} is not a sequence")

    def concrete_items(self, s: SSeq):
        if any(isinstance(p, (Flat, Guard)) for p in s.parts):
            return None
        out = []
        for p in s.parts:
            if isinstance(p, Lit):
                out += p.items
            else:
                n = z3.simplify(p.n)
                if z3.is_int_value(n):
                    out += [p.at(z3.IntVal(j)) for j in range(n.as_long())]
                else:
                    return None
        return out

    def expand(self, s):
        return s

    def seq_length(self, s: SSeq):
        s = self.expand(s)
        n = 0
        for p in s.parts:
            n = n + (len(p.items) if isinstance(p, Lit) else p.n)
        return n if isinstance(n, int) else z3.simplify(n)

    def seq_index(self, s: SSeq, i):
        """Element at a (known to be in range) index; a python int or a z3 Int term."""
        s = self.expand(s)
        base = 0
        parts = s.parts
        for j, p in enumerate(parts):
            n = len(p.items) if isinstance(p, Lit) else p.n
            last = j == len(parts) - 1
            off = (i - base) if not (isinstance(i, int) and isinstance(base, int)) else i - base
            if isinstance(p, Lit):
                if isinstance(off, int):
                    if 0 <= off < n:
                        return p.items[off]
                else:
                    for q, x in enumerate(p.items):
                        if (last and q == n - 1) or self.branch(off == q):
                            return x
            elif last or self.branch(off < n):
                return p.at(z3.simplify(off) if not isinstance(off, int) else z3.IntVal(off))
            base = base + n
        raise Unsupported("index out of the known parts of a sequence")

    def seq_index_term(self, s: SSeq, kind, i):
        """Terms of the element at z3 index i, without branching."""
        s = self.expand(s)
        base = z3.IntVal(0)
        alts = []
        for p in s.parts:
            if isinstance(p, Lit):
                for q, x in enumerate(p.items):
                    alts.append((i == base + q, self.unwrap(kind, x)))
                base = base + len(p.items)
            else:
                alts.append((z3.And(i >= base, i < base + p.n), self.unwrap(kind, p.at(i - base))))
                base = base + p.n
        if not alts:
            return [default_term(s) for s in kind.sorts]
        return ite_terms(alts)

    def seq_elem_kind(self, s: SSeq):
        ek = s.ek
        s = self.expand(s)
        for p in s.parts:
            xs = p.items if isinstance(p, Lit) else ()
            for x in xs:
                k = self.kind_of(x)
                ek = k if ek is None else self.join(ek, k)
        return ek

    def seq_term(self, s: SSeq, ek):
        """A z3 term of the sequence sort."""
        s = self.expand(s)
        sort = seq_sort(ek)
        empty = z3.Const(f"empty:{sort.name()}", sort)
        self.fact(seq_len(empty) == 0)
        t = None
        for p in s.parts:
            if isinstance(p, Sym):
                u = p.term if p.term is not None and p.term.sort() == sort else self._sym_term(p, ek, sort)
                if t is None:
                    t = u
                else:
                    f = ufun("concat", sort, sort, sort)
                    r = f(t, u)
                    self.fact(seq_len(r) == seq_len(t) + seq_len(u))
                    i = z3.Int("ci?")
                    for j, a in enumerate(seq_at(r, ek, i)):
                        self.fact(
                            forall(
                                [i],
                                z3.Implies(
                                    z3.And(0 <= i, i < seq_len(r)),
                                    a == z3.If(i < seq_len(t), seq_at(t, ek, i)[j], seq_at(u, ek, i - seq_len(t))[j]),
                                ),
                                pats=[a],
                            )
                        )
                        b, c = seq_at(t, ek, i)[j], seq_at(u, ek, i)[j]
                        self.fact(forall([i], z3.Implies(z3.And(0 <= i, i < seq_len(t)), a == b), pats=[b]))
                        self.fact(forall([i], z3.Implies(z3.And(0 <= i, i < seq_len(u)), seq_at(r, ek, i + seq_len(t))[j] == c), pats=[c]))
                    t = r
            else:
                if t is None:
                    t = empty
                for x in p.items:
                    xs = self.unwrap(ek, x)
                    f = ufun("snoc", sort, *ek.sorts, sort)
                    r = f(t, *xs)
                    self.fact(seq_len(r) == seq_len(t) + 1)
                    i = z3.Int("si?")
                    for j, a in enumerate(seq_at(r, ek, i)):
                        self.fact(seq_at(r, ek, seq_len(t))[j] == xs[j])
                        self.fact(
                            forall(
                                [i],
                                z3.Implies(
                                    z3.And(0 <= i, i < seq_len(t)), a == seq_at(t, ek, i)[j]
                                ),
                                pats=[a],
                            )
                        )
                    t = r
        return empty if t is None else t

    def _sym_term(self, p: Sym, ek, sort):
        i = z3.Int("mi?")
        self.binders.append(i)
        try:
            elem = self.unwrap(ek, p.at(i))
        finally:
            self.binders.pop()
        key = (p.n.get_id() if not isinstance(p.n, int) else p.n, tuple(e.get_id() for e in elem), sort.name())
        hit = self.seqterm_cache.get(key)
        if hit is not None:
            return hit[0]
        t = self.fresh(sort, "seq")
        self.seqterm_cache[key] = (t, p, elem)
        self.fact(seq_len(t) == p.n)
        for j, e in enumerate(elem):
            a = seq_at(t, ek, i)[j]
            pats = [a]
            if z3.is_array(a):  # sets made of the elements of another sequence: also for what is known of those
                pats += first_elements(p.n, i)
            self.fact(forall([i], z3.Implies(z3.And(0 <= i, i < p.n), a == e), pats=pats))
            if not z3.is_const(e) and _pattern_ok(e, {i.decl().name()}):
                self.fact(forall([i], z3.Implies(z3.And(0 <= i, i < p.n), a == e), pats=[e]))
        return t

    # -------------------------------------------------------------------------- sets and dicts

    def as_sset(self, v, kk) -> SSet:
        v = self.content(v)
        if isinstance(v, SSet):
            return v
        if isinstance(v, (set, frozenset)):
            v = CSet(tuple(v), type(v))
        if isinstance(v, CSet):
            a = z3.K(kk.sorts[0], z3.BoolVal(False))
            for x in v.items:
                a = z3.Store(a, self.unwrap(kk, x)[0], True)
            return SSet(a, kk, v.cls)
        raise Unsupported(f"{v!r} is not a set")

    def as_sdict(self, v, kk, vk) -> SDict:
        v = self.content(v)
        if isinstance(v, SDict):
            if v.vk == vk and v.kk == kk:
                return v
            if [s.sexpr() for s in v.vk.sorts] == [s.sexpr() for s in vk.sorts]:
                return SDict(v.has, v.gets, kk, vk, v.order, v.cls)
            # widen the values
            k = z3.Const("wk?", kk.sorts[0])
            self.binders.append(k)
            val = self.wrap(v.vk, [z3.Select(g, k) for g in v.gets])
            ts = self.unwrap(vk, val)
            self.binders.pop()
            return SDict(v.has, [z3.Lambda([k], t) for t in ts], kk, vk, v.order, v.cls)
        if isinstance(v, dict):
            v = CDict(v)
        if isinstance(v, CDict):
            has = z3.K(kk.sorts[0], z3.BoolVal(False))
            gets = [z3.K(kk.sorts[0], default_term(s)) for s in vk.sorts]
            order = SSeq([], kk)
            ks = []
            for k, x in v.d.items():
                kt = self.unwrap(kk, k)[0]
                has = z3.Store(has, kt, True)
                gets = [z3.Store(g, kt, t) for g, t in zip(gets, self.unwrap(vk, x))]
                ks.append(k)
            return SDict(has, gets, kk, vk, self.seq_term(SSeq([Lit(ks)], kk), kk), v.cls)
        raise Unsupported(f"{v!r} is not a mapping")

    def dict_order_term(self, d: SDict):
        if d.order is None:
            # insertion order is not a function of the key set: an arbitrary one, fixed for this value
            d.order = self.fresh(seq_sort(d.kk), "order")
        return d.order

    def dict_keys(self, d: SDict) -> SSeq:
        """The keys in iteration order, with the facts tying the order to membership."""
        t = self.dict_order_term(d)
        self.order_facts(d.has, t, d.kk)
        return self.seq_of_term(t, d.kk)

    def order_facts(self, has, t, kk):
        key = ("order", has.get_id(), t.get_id())
        if key in self.order_cache:
            return
        self.order_cache[key] = (has, t)
        ks = kk.sorts[0]
        pos = ufun("pos", t.sort(), ks, z3.IntSort())
        i, k = z3.Int("oi?"), z3.Const("ok?", ks)
        at = seq_at(t, kk, i)[0]
        n = seq_len(t)
        self.fact(n >= 0)
        self.fact(
            forall(
                [i],
                z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(has, at), pos(t, at) == i)),
                pats=[at],
            )
        )
        self.fact(
            forall(
                [k],
                z3.Implies(
                    z3.Select(has, k),
                    z3.And(0 <= pos(t, k), pos(t, k) < n, seq_at(t, kk, pos(t, k))[0] == k),
                ),
                pats=[z3.Select(has, k)],
            )
        )

    def set_order(self, s: SSet) -> SSeq:
        if s.order is None:
            s.order = self.fresh(seq_sort(s.kk), "enum")
        t = s.order
        self.order_facts(s.has, t, s.kk)
        return self.seq_of_term(t, s.kk)

    def dict_store(self, d, key, val, kk=None, vk=None):
        if isinstance(d, CDict) and not is_symbolic(key) and _hashable(key):
            nd = dict(d.d)
            nd[key] = val
            return CDict(nd, d.cls)
        self.freeze_items(d)
        kk0, vk0 = self.kind_of(key), self.kind_of(self.content(val))
        if isinstance(d, SDict):
            kk = self.join(d.kk, kk0) if kk is None else kk
            vk = self.join(d.vk, vk0) if vk is None else vk
        else:
            dk = self.kind_of(d)
            kk = kk or (kk0 if dk.kk is None else self.join(dk.kk, kk0))
            vk = vk or (vk0 if dk.vk is None else self.join(dk.vk, vk0))
        if len(kk.sorts) != 1:
            kk = KObj(object)
        sd = self.as_sdict(d, kk, vk)
        kt = self.unwrap(kk, key)[0]
        order = sd.order
        if order is not None:
            had = select(sd.has, kt)
            if z3.is_true(had) or any(p.eq(had) for p in self.pc):
                pass
            else:
                so = self.seq_of_term(order, kk)
                more = self.seq_term(SSeq([*so.parts, Lit([self.wrap(kk, [kt])])], kk), kk)
                new = z3.is_false(had) or any(z3.is_not(p) and p.arg(0).eq(had) for p in self.pc)
                order = more if new else z3.If(had, order, more)
        return SDict(
            store(sd.has, kt, True),
            [store(g, kt, t) for g, t in zip(sd.gets, self.unwrap(vk, val))],
            kk,
            vk,
            order,
            sd.cls,
        )

    # -------------------------------------------------------------------------- merging

    def merge(self, alts):
        """One value out of [(condition, value)], or None if they cannot be merged."""
        if len(alts) == 1:
            return alts[0][1]
        first = alts[0][1]
        if all(v is first or (not isinstance(v, Val) and not isinstance(v, tuple) and _safe_eq(v, first)
               and type(v) is type(first)) for _, v in alts):
            return first
        for _, v in alts:
            if v is POISON or v is UNBOUND:
                return POISON
        try:
            vs = [(c, self.content(v)) for c, v in alts]
            k = self.join_all([self.kind_of(v) for _, v in vs])
            terms = ite_terms([(c, self.unwrap(k, v)) for c, v in vs])
            return self.wrap(k, terms)
        except Unsupported:
            return SAlt(list(alts))


def ite_terms(alts):
    """Componentwise if-then-else; the last alternative is the default."""
    out = list(alts[-1][1])
    for c, ts in reversed(alts[:-1]):
        out = [t if t.eq(o) else z3.If(c, t, o) for t, o in zip(ts, out)]
    return out


def default_term(s):
    if s == z3.IntSort():
        return z3.IntVal(0)
    if s == z3.BoolSort():
        return z3.BoolVal(False)
    if s == z3.StringSort():
        return z3.StringVal("")
    if isinstance(s, z3.ArraySortRef):
        return z3.K(s.domain(), default_term(s.range()))
    return z3.Const(f"default:{s.name()}", s)


def _common(a, b):
    if not isinstance(a, type) or not isinstance(b, type):
        return object
    if issubclass(a, b):
        return b
    for c in a.__mro__:
        if issubclass(b, c):
            return c
    return object


def _safe_eq(a, b):
    try:
        return bool(a == b)
    except Exception:
        return False


def _hashable(v):
    try:
        hash(v)
        return True
    except Exception:
        return False
