"""Assumed contracts shared by several properties (each is listed in the evidence as assumed)."""

from __future__ import annotations

import datetime

import z3
from pydantic import ValidationError

from pyvc.core import PyRaise
from pyvc.values import *

IntS, StrS, BoolS = z3.IntSort(), z3.StringSort(), z3.BoolSort()


def record(e, *classes):
    """Constructing a model stores the given field values (pydantic, values already of the declared kinds)."""
    for c in classes:
        e.contracts[c] = _ctor(c)


def _ctor(cls):
    def ctor(e, args, kw):
        from pyvc.values import is_symbolic

        if args:
            e.raise_(TypeError, "positional arguments")
        if not is_symbolic(list(kw.values())):
            return e.construct_model(cls, args, kw)
        e.used_contracts.add(f"pydantic: {cls.__name__}(...) stores the given field values")
        fields = {}
        for n in kw:
            if n not in cls.model_fields:
                e.raise_(ValueError, f"extra field {n}")
        for n, f in cls.model_fields.items():
            if n in kw:
                fields[n] = kw[n]
            elif f.is_required():
                e.raise_(ValueError, f"missing field {n}")
            else:
                fields[n] = f.get_default(call_default_factory=True)
        return e.new_obj(cls, **fields)

    return ctor


def dates(e):
    """datetime.date: (year, month, day) identify a date, ISO texts parse back, impossible dates are rejected."""
    D = datetime.date
    part = lambda n: ufun(f"date.{n}", Ref, IntS)
    iso = ufun("date.iso", Ref, StrS)
    iso_ok, iso_of = ufun("date.iso_ok", StrS, BoolS), ufun("date.of_iso", StrS, Ref)
    ymd_ok, ymd_of = ufun("date.ok", IntS, IntS, IntS, BoolS), ufun("date.of", IntS, IntS, IntS, Ref)

    def facts(t):
        y, m, d = (part(n)(t) for n in ("year", "month", "day"))
        e.fact(z3.And(1 <= y, y <= 9999, 1 <= m, m <= 12, 1 <= d, d <= 31, ymd_ok(y, m, d), ymd_of(y, m, d) == t))
        e.fact(z3.And(iso_ok(iso(t)), iso_of(iso(t)) == t))

    def note():
        e.used_contracts.add("datetime.date: (year, month, day) and the ISO text determine the date and parse back")

    def attr(n):
        def get(e2, v):
            note()
            if not isinstance(v, Val):
                return getattr(v, n)
            facts(v.t)
            return SInt(part(n)(v.t))

        return get

    for n in ("year", "month", "day"):
        e.attr_specs[(D, n)] = attr(n)

    def isoformat(e2, args, kw):
        note()
        v = e2.res(args[0])
        if not isinstance(v, Val):
            return v.isoformat()
        facts(v.t)
        return SStr(iso(v.t))

    def fromiso(e2, args, kw):
        note()
        s = e2.res(args[-1])
        if not isinstance(s, Val):
            return e2.native(D.fromisoformat, [s], {})
        if not isinstance(s, SStr):
            e2.raise_(TypeError, "fromisoformat: argument must be str")
        if not e2.branch(iso_ok(s.t)):
            e2.raise_(ValueError, "Invalid isoformat string")
        r = iso_of(s.t)
        facts(r)
        return SObj(r, D, True)

    def new(e2, args, kw):
        note()
        vs = [e2.res(a) for a in args] + [e2.res(kw[n]) for n in ("year", "month", "day")[len(args):] if n in kw]
        if len(vs) != 3:
            e2.raise_(TypeError, "date needs three numbers")
        if not any(isinstance(v, Val) for v in vs):
            return e2.native(D, vs, {})
        y, m, d = (e2.int_term(v) for v in vs)
        if not e2.branch(ymd_ok(y, m, d)):
            e2.raise_(ValueError, "day is out of range for month")
        r = ymd_of(y, m, d)
        facts(r)
        e2.fact(z3.And(part("year")(r) == y, part("month")(r) == m, part("day")(r) == d))
        return SObj(r, D, True)

    from pyvc.values import Native

    e.attr_specs[(D, "isoformat")] = lambda e2, v: Native(lambda e3, a, k: isoformat(e3, [v], k), "date.isoformat")
    e.models[("new", D)] = lambda e2, cls, args, kw: new(e2, args, kw)
    e.contracts[D] = new
    e.date_iso = fromiso
    e.contracts[D.fromisoformat] = fromiso
