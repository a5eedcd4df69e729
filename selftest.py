#!/opt/venv/bin/python
"""Setup: check that everything needed is present, and cross-check pyvc against CPython.

Every probe function of contracts/probes.py is run by CPython on random inputs.  pyvc then executes it on symbolic parameters constrained to those inputs;
it must not prove that the result differs from CPython's.  Where it has an exact model it proves that the result is CPython's; the others (built-ins known by a
few laws only, or outside the subset) are left open.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.execve(sys.executable, [sys.executable, os.path.abspath(__file__), *sys.argv[1:]], {**os.environ, "PYTHONHASHSEED": "0"})
import copy  # noqa: E402
import multiprocessing as mp  # noqa: E402
import random  # noqa: E402
import time  # noqa: E402

import arti  # noqa: E402
import z3  # noqa: E402

from contracts import probes  # noqa: E402
from pyvc import spec, verify  # noqa: E402
from pyvc.core import *  # noqa: E402,F403
from pyvc.spec import *  # noqa: E402,F403

I, S, B = KInt(), KStr(), KBool()
KINDS = dict(i=I, s=S, b=B, I=KSeq(I, list), S=KSeq(S, list), D=KDict(S, I, dict), T=KSet(I, set), O=KAlt([KConst(None), I]))
N = int(os.environ.get("PROBES", 1))


def value(kind, rng):
    num, text = lambda: rng.randint(-3, 6), lambda: rng.choice(["", "a", "b", "ab", "a/b", "ba", "12", "-3", "x/"])
    many = lambda f: [f() for _ in range(rng.randint(0, 4))]
    return dict(i=num, s=text, b=lambda: rng.random() < 0.5, I=lambda: many(num), S=lambda: many(text), O=lambda: rng.choice([None, num()]),
                D=lambda: {k: num() for k in many(text)}, T=lambda: set(many(num)))[kind]()


def one(job):
    k, n = job
    f, kinds = probes.PROBES[k]
    rng = random.Random(f"{f.__name__}:{n}")
    vs = tuple(value(x, rng) for x in kinds)
    wanted = spec.outcome(f, *copy.deepcopy(vs))
    if vs and spec.outcome(f, *copy.deepcopy(vs)) != wanted:
        return f.__name__, vs, "not deterministic"

    def params(e, name):
        return tuple(Cell(list, x) if isinstance(x, list) else x for x in ())

    def xs(e, name):
        return tuple(e.fresh_val(KINDS[x], f"x{j}") for j, x in enumerate(kinds))

    out = []
    for fn in (probes.agrees, probes.never):
        lem = spec.Lemma("self", f.__name__, fn, dict(f=KConst(f), xs=xs, vs=KConst(vs), wanted=KConst(wanted)), None, True, None, 10, 0, (), "", max_paths=400, cover=False)
        v = verify.Verifier(lem, final_ms=2000)
        v.run()
        st = {r["status"] for r in v.results}
        out.append("undecided" if v.undecided else "refuted" if "refuted" in st else "unknown" if st - {"discharged"} else "vacuous" if not v.results else "proved")
    agrees, never = out
    if never == "proved":
        return f.__name__, vs, f"pyvc disagrees with CPython: {wanted} {out}"
    return f.__name__, vs, None if agrees == "proved" else f"({agrees}, {never})"


def main():
    print("z3", z3.get_version_string(), "arti", arti.__file__)
    t0 = time.time()
    jobs = [(k, n) for k in range(len(probes.PROBES)) for n in range(N)]
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 4)) as pool:
        done = pool.map(one, jobs, chunksize=2)
    wrong = [d for d in done if d[2] and not d[2].startswith("(")]
    open_ = [d for d in done if d[2] and d[2].startswith("(")]
    for d in wrong:
        print("WRONG", *d)
    if "-v" in sys.argv:
        for d in open_:
            print("open", *d)
    print(f"self-test: {len(done)} runs of {len(probes.PROBES)} probes, {len(done) - len(open_) - len(wrong)} agree by proof, {len(open_)} open, {len(wrong)} wrong, {time.time() - t0:.0f} s")
    return 1 if wrong else 0


if __name__ == "__main__":
    sys.exit(main())
