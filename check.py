#!/opt/venv/bin/python
"""Decide one property:  check.py C01   |   check.py --replay evidence/replay/C01-0.json

Runs every lemma of the property through the deductive verifier against /repo's current source, and
the bounded stand-ins next to them; writes evidence/<id>.json.
"""

from __future__ import annotations

import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
if os.environ.get("PYTHONHASHSEED") != "0" or "PYTHONPATH" in os.environ:
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHOME")}
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", LANG="C.UTF-8", LC_ALL="C.UTF-8")
    os.execve(sys.executable, [sys.executable, os.path.abspath(__file__), *sys.argv[1:]], env)

import base64  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import multiprocessing as mp  # noqa: E402
import pickle  # noqa: E402
import random  # noqa: E402
import shutil  # noqa: E402
import tempfile  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402

from pyvc import spec, verify  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
JOBS = min(8, os.cpu_count() or 4)

TRUSTED = [
    "pyvc itself: its reading of Python's semantics (pyvc/interp.py) and of built-in operations (pyvc/models.py), cross-checked against CPython by selftest.py",
    "z3 4.x (second solver: cvc5 on what z3 leaves open)",
    "CPython, pydantic, and the third-party libraries under contract",
]


def load(prop):
    importlib.import_module(f"contracts.{prop.lower()}")


def run_scenario(sc, ks, seed):
    """Bounded stand-in: a few runs of one scenario on the real code, in a scratch directory."""
    out = dict(kind="scenario", name=sc.name, bound=sc.bound, evaluations=0, samples=[], distinct=[])
    t0 = time.time()
    for k in ks:
        rng = random.Random(f"{seed}:{sc.name}:{k}")
        tmp = tempfile.mkdtemp(prefix="vp-")
        cwd = os.getcwd()
        try:
            os.chdir(tmp)
            d = sc.fn(rng, tmp)
            out["evaluations"] += 1
            d = repr(d) if not isinstance(d, str) else d
            out["distinct"].append(d[:300])
            if len(out["samples"]) < 2:
                out["samples"].append(d[:500])
        except spec.Skip:
            pass
        except BaseException as e:  # noqa: BLE001
            tb = traceback.format_exc()
            out["failure"] = dict(run=k, error=f"{type(e).__name__}: {e}"[:1500], trace=tb[-3500:])
            break
        finally:
            os.chdir(cwd)
            shutil.rmtree(tmp, ignore_errors=True)
    out["seconds"] = round(time.time() - t0, 2)
    return out


def worker(conn, task):
    try:
        import signal

        signal.signal(signal.SIGINT, signal.SIG_IGN)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        kind, obj, extra = task
        if kind == "lemma":
            r = verify.check_lemma(obj, SEED, TIER)
        elif kind == "scenario":
            r = run_scenario(obj, extra, SEED)
        else:
            tmp = tempfile.mkdtemp(prefix="vp-")
            os.chdir(tmp)
            try:
                r = dict(kind="known", name=obj.name, what=obj.what, found=obj.fn())
            except Exception as e:  # noqa: BLE001
                r = dict(kind="known", name=obj.name, what=obj.what, found=None, error=repr(e))
            finally:
                os.chdir("/")
                shutil.rmtree(tmp, ignore_errors=True)
        conn.send(r)
    except BaseException:  # noqa: BLE001
        try:
            conn.send(dict(kind=task[0], name=task[1].name, crash=traceback.format_exc()[-2500:]))
        except Exception:  # noqa: BLE001
            pass
    finally:
        conn.close()
        os._exit(0)


def run_tasks(tasks, limit):
    """Each task in a process of its own, JOBS at a time, with a time limit each."""
    ctx = mp.get_context("fork")
    todo = list(tasks)
    running, done = [], []
    while todo or running:
        while todo and len(running) < JOBS:
            t = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, t))
            p.start()
            b.close()
            running.append((t, p, a, time.time()))
        mp.connection.wait([a for _, _, a, _ in running], timeout=0.5)
        keep = []
        for t, p, a, t0 in running:
            if a.poll():
                try:
                    done.append((t, a.recv()))
                except EOFError:
                    done.append((t, dict(kind=t[0], name=t[1].name, crash="the process died")))
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
            elif not p.is_alive():
                done.append((t, dict(kind=t[0], name=t[1].name, crash="the process died")))
                a.close()
            elif time.time() - t0 > limit:
                p.kill()
                p.join()
                a.close()
                done.append((t, dict(kind=t[0], name=t[1].name, crash=f"no result within {limit} s", timeout=True)))
            else:
                keep.append((t, p, a, t0))
        running = keep
    return done


def main(prop):
    t0 = time.time()
    ev_dir = os.path.join(HERE, "evidence")
    rp_dir = os.path.join(ev_dir, "replay")
    os.makedirs(rp_dir, exist_ok=True)
    for f in os.listdir(rp_dir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rp_dir, f))
    evidence = os.path.join(ev_dir, f"{prop}.json")
    violations, lines, undecided = [], [], []
    try:
        load(prop)
    except Exception:  # noqa: BLE001
        # the repository itself (or a name the contracts rely on) cannot be imported
        tb = traceback.format_exc()
        import arti  # noqa: F401  -- if this fails, the code does not even load: an error of the check

        violations.append(dict(kind="load", name="contracts", error=tb[-3000:], input=None))
    lemmas = spec.LEMMAS.get(prop, [])
    scenarios = spec.SCENARIOS.get(prop, [])
    knowns = spec.KNOWN.get(prop, [])
    tasks = [("lemma", l, None) for l in lemmas]
    for s in scenarios:
        n = s.runs * (1 if TIER == "quick" else 15)
        chunk = max(1, -(-n // 4))
        tasks += [("scenario", s, range(i, min(n, i + chunk))) for i in range(0, n, chunk)]
    tasks += [("known", k, None) for k in knowns]
    tasks.sort(key=lambda t: -(getattr(t[1], "budget", 0) if t[0] == "lemma" else 10))
    done = run_tasks(tasks, 240 if TIER == "quick" else 3600)

    listed = [l.strip() for l in open(os.path.join(HERE, "known_findings.txt"))] if os.path.exists(os.path.join(HERE, "known_findings.txt")) else []
    obligations = discharged = native = 0
    distinct = set()
    functions, assumed, proved, bounded, samples = set(), set(), [], [], []
    backends = {}
    solver_s = checks = paths = 0
    second = {}
    for (kind, obj, extra), r in done:
        if r.get("crash"):
            if kind == "scenario" and r.get("timeout"):
                violations.append(dict(kind="scenario", name=obj.name, error=r["crash"], input=f"runs {list(extra)} of scenario {obj.name}"))
            else:
                undecided.append(dict(name=obj.name, why=r["crash"][-800:]))
            continue
        if kind == "lemma":
            obligations += r.get("obligations", 0)
            discharged += r.get("discharged", 0)
            native += r.get("native", 0)
            functions |= set(r.get("functions", ()))
            assumed |= set(r.get("assumed", ()))
            for k, v in r.get("backends", {}).items():
                backends[k] = backends.get(k, 0) + v
            for k, v in (r.get("second") or {}).items():
                second[k] = second.get(k, 0) + v
            st = r.get("stats", {})
            solver_s += st.get("solver_s", 0)
            checks += st.get("checks", 0)
            paths += st.get("paths", 0)
            if r["status"] == "proved":
                proved.append(r["name"])
            elif r["status"] == "bounded":
                bounded.append(dict(name=r["name"], native=r.get("native", 0), note=obj.note))
            if r["status"] == "undecided":
                undecided.append(dict(name=r["name"], why=r["undecided"], native=r.get("native", 0)))
            if r.get("input"):
                violations.append(dict(kind="lemma", name=r["name"], error=r["input_failure"], input=r["input"], pickle=r.get("pickle"),
                                       failed=r.get("failed")))
            elif r["status"] in ("failed", "unproved"):
                violations.append(dict(kind="lemma", name=r["name"], error="obligation not discharged", failed=r["failed"], input=None))
        elif kind == "scenario":
            native += r["evaluations"]
            distinct |= set(r["distinct"])
            if len(samples) < 12:
                samples += r["samples"][:1]
            if r.get("failure"):
                violations.append(dict(kind="scenario", name=r["name"], error=r["failure"]["error"], trace=r["failure"]["trace"],
                                       input=f"run {r['failure']['run']} of scenario {r['name']} with seed {SEED}",
                                       run=r["failure"]["run"], seed=SEED))
        else:
            if r["found"]:
                if any(l.startswith(f"finding: property={prop} {r['name']} ") for l in listed):
                    lines.append(f"KNOWN-FINDING: property={prop} {r['name']}: {r['found']}")
                else:
                    violations.append(dict(kind="known", name=r["name"], error=r["found"], input=r["what"]))
    violations.sort(key=lambda v: (v["input"] is None, v["kind"], v["name"]))
    seen, out = set(), []
    for v in violations:
        if (v["kind"], v["name"]) in seen:
            continue
        seen.add((v["kind"], v["name"]))
        out.append(v)
    violations = out
    with_input = [v for v in violations if v["input"] is not None]
    for i, v in enumerate(violations[:8]):
        path = os.path.join(rp_dir, f"{prop}-{i}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, how=f"/opt/venv/bin/python {HERE}/check.py --replay {path}", **v), f, indent=1, default=str)
        if v["input"] is None and with_input:
            continue  # the failing input is reported; the failed obligation is in its own replay file
        tail = "" if v["input"] is not None else " no-failing-input-found"
        detail = v.get("failed") and "; ".join(f"{b['label']} {b['text']}" for b in v["failed"][:2]) or v["error"].splitlines()[-1] if v.get("error") else ""
        lines.append(f"# {v['kind']} {v['name']}: {detail}"[:600].replace("\n", " "))
        lines.append(f"VIOLATION property={prop} replay={path}{tail}")
    for u in undecided:
        lines.append(f"UNDECIDED {u['name']} (bounded stand-in only): {str(u['why'])[:300]}".replace("\n", " "))
    bounds = [dict(name=s.name, bound=s.bound, runs=s.runs * (1 if TIER == "quick" else 15)) for s in scenarios]
    level = json.load(open(os.path.join(HERE, "levels.json"))).get(prop, "proof")
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd=f"/opt/venv/bin/python {HERE}/check.py {prop}",
        trusted_base=TRUSTED,
        lemmas_proved=sorted(proved), lemmas_undecided=undecided, lemmas_bounded=bounded,
        functions_under_contract=sorted(functions), backends=backends, solver_seconds=round(solver_s, 2), solver_queries=checks, paths=paths,
        second_solver=second,
        evaluations=native, distinct_nontrivial=len(distinct) + sum(b["native"] for b in bounded),
        rule="bounded stand-ins: seeded random runs of the real code; distinct by the description of the case",
        samples=samples or [dict(lemma=p) for p in sorted(proved)[:5]],
        bounded_stand_ins=bounds,
        explanation="obligations are discharged for all inputs and iterations; everything under bounded_stand_ins / lemmas_bounded is sampled only",
    )
    with open(evidence, "w") as f:
        json.dump(dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=sorted(assumed),
                       wall_s=round(time.time() - t0, 2), violations=len(violations)), f, indent=1, default=str)
    for l in lines:
        print(l)
    print(f"{prop}: {len(proved)} lemmas proved ({discharged}/{obligations} obligations), {len(undecided)} undecided, "
          f"{len(bounded) + len(scenarios)} bounded stand-ins ({native} evaluations), {len(violations)} violations, {time.time() - t0:.1f} s")
    return 1 if violations else 0


def replay(path):
    r = json.load(open(path))
    prop = r["property"]
    load(prop)
    if r["kind"] == "lemma" and r.get("pickle"):
        lem = next(l for l in spec.LEMMAS[prop] if l.name == r["name"])
        res = verify.run_native(lem, pickle.loads(base64.b64decode(r["pickle"])))
        print(f"{lem.name}({r['input']}): {res or 'holds'}")
        return 1 if res else 0
    if r["kind"] == "lemma":
        lem = next(l for l in spec.LEMMAS[prop] if l.name == r["name"])
        res = verify.check_lemma(lem, SEED, TIER)
        print(json.dumps(res, indent=1, default=str))
        return 0 if res["status"] in ("proved", "undecided", "bounded") and not res.get("input") else 1
    if r["kind"] == "scenario":
        sc = next(s for s in spec.SCENARIOS[prop] if s.name == r["name"])
        res = run_scenario(sc, [r["run"]], r["seed"])
        print(json.dumps(res, indent=1, default=str))
        return 1 if res.get("failure") else 0
    print(json.dumps(r, indent=1))
    return 1


if __name__ == "__main__":
    import multiprocessing.connection  # noqa: F401

    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
