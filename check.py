"""Entry point: python3-vt check.py Cxx [--tier quick|thorough].

1. Deductive part: every contract unit of the property is executed symbolically on the code read from the repository now;
   each obligation must be discharged (normalisation in the exact ring, or z3).
2. Replay part: the property's run-time contracts are evaluated on the real code under the system Python with stand-ins for
   the absent libraries. It supplies failing inputs for violations and is the bounded stand-in for undecided units.
"""
from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import signal
import subprocess
import sys
import time
from pathlib import Path

ROOT = Path(__file__).resolve().parent
sys.path.insert(0, str(ROOT))
REPLAY_PY = os.environ.get("PV_REPLAY_PYTHON", "/opt/venv/bin/python")
TRUSTED = [
    "pyvc (symbolic executor, AST transformation, exact Laurent-polynomial ring) in /verif/pyvc",
    "z3 (python3-vt) as SMT back end",
    "CPython 3.12 semantics of the executed statements",
]


class UnitTimeout(BaseException):
    pass


def _alarm(*_):
    raise UnitTimeout()


def run_unit(job):
    prop, idx, tier, limit = job
    from pyvc import engine, runtime

    sys.setrecursionlimit(20000)
    mod = importlib.import_module(f"contracts.{prop.lower()}")
    name, fn = mod.units(tier)[idx]
    runtime.ENTERED.clear()
    signal.signal(signal.SIGPROF, _alarm)  # processor time: other load does not change the verdict
    signal.setitimer(signal.ITIMER_PROF, limit)
    t0 = time.time()
    try:
        e, why = engine.run_contract(name, fn)
    except UnitTimeout:
        return {"unit": name, "why": f"limit of {limit} s of processor time", "obs": [], "entered": [], "solver_s": 0.0, "queries": 0, "paths": 0,
                "assumptions": [], "wall": time.time() - t0, "crash": None}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    obs = [(o.name, o.status, str(o.detail)[:1500], o.model, round(o.ms, 2)) for o in e.obligations]
    return {"unit": name, "why": why, "obs": obs, "entered": sorted(map(str, runtime.ENTERED)), "solver_s": e.solver_s, "queries": e.queries,
            "paths": e.paths, "assumptions": sorted(e.assumptions), "wall": time.time() - t0, "crash": getattr(e, "crash", None)}


def _child(job, conn):
    try:
        conn.send(run_unit(job))
    except BaseException as ex:  # noqa: BLE001
        conn.send(f"worker: {type(ex).__name__}: {ex}")
    conn.close()
    os._exit(0)


def cpu(pid):
    """Processor seconds used by a process so far."""
    try:
        f = Path(f"/proc/{pid}/stat").read_text().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def deductive(prop, tier, budget):
    """One process per unit; a unit stuck inside the solver is ended from here and stays undecided."""
    mod = importlib.import_module(f"contracts.{prop.lower()}")
    us = mod.units(tier)
    limit = getattr(mod, "UNIT_LIMIT", 240) if tier == "quick" else 600
    out = [None] * len(us)
    ctx = mp.get_context("fork")
    t_end = time.time() + budget
    queue, live = list(range(len(us))), {}

    def undecided(i, why):
        out[i] = {"unit": us[i][0], "why": why, "obs": [], "entered": [], "solver_s": 0.0, "queries": 0, "paths": 0, "assumptions": [],
                  "wall": 0.0, "crash": None}

    while queue or live:
        while queue and len(live) < 8:
            i = queue.pop(0)
            rd, wr = ctx.Pipe(False)
            pr = ctx.Process(target=_child, args=((prop, i, tier, limit), wr), daemon=True)
            pr.start()
            wr.close()
            live[rd] = (i, pr)
        for rd in mpc.wait(list(live), timeout=1.0):
            i, pr = live.pop(rd)
            try:
                r = rd.recv()
                if isinstance(r, str):
                    undecided(i, r)
                else:
                    out[i] = r
            except EOFError:
                undecided(i, "worker ended without a result")
            rd.close()
            pr.join(5)
        for rd, (i, pr) in list(live.items()):
            late = time.time() > t_end
            if late or cpu(pr.pid) > limit + 20:
                if rd.poll():
                    continue
                pr.kill()
                pr.join(5)
                del live[rd]
                rd.close()
                undecided(i, "overall time budget" if late else f"limit of {limit} s of processor time")
        if time.time() > t_end:
            for i in queue:
                undecided(i, "overall time budget")
            queue = []
    return mod, out


def start_replay(prop, tier, seed, outfile, limit):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
               PETSC_DIR="/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real", PV_REPO=os.environ.get("PV_REPO", "/repo"))
    env.pop("PYTHONPATH", None)
    return subprocess.Popen([REPLAY_PY, str(ROOT / "replay" / "run.py"), prop, "--tier", tier, "--seed", str(seed), "--out", str(outfile),
                             "--limit", str(limit)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                            start_new_session=True)


def known_findings(prop):
    p = ROOT / "known_findings.jsonl"
    out = []
    if p.exists():
        for line in p.read_text().splitlines():
            if line.strip() and not line.startswith("#"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-replay", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ev = ROOT / "evidence"
    rdir = ev / "replay"
    rdir.mkdir(parents=True, exist_ok=True)
    for old in rdir.glob(f"{prop}-*.json"):
        old.unlink()
    rlimit = 500 if tier == "quick" else 3000
    rout = rdir / f"{prop}-replay.json"
    proc = None if a.no_replay else start_replay(prop, tier, seed, rout, rlimit)
    if a.no_proof:
        mod, units = importlib.import_module(f"contracts.{prop.lower()}"), []
    else:
        mod, units = deductive(prop, tier, 640 if tier == "quick" else 3000)
    rep = {"status": "skipped", "failures": [], "evaluations": 0, "samples": []}
    if proc is not None:
        try:
            log, _ = proc.communicate(timeout=rlimit + 60)
        except subprocess.TimeoutExpired:
            os.killpg(proc.pid, signal.SIGKILL)
            log, _ = proc.communicate()
        if rout.exists():
            rep = json.loads(rout.read_text())
        else:
            rep = {"status": "error", "why": (log or "")[-1500:], "failures": [], "evaluations": 0, "samples": []}

    obs = [o for u in units for o in u["obs"]]
    refuted = [(u["unit"], o) for u in units for o in u["obs"] if o[1] == "refuted"]
    undecided = [(u["unit"], u["why"] or "no obligations generated") for u in units if u["why"] or not u["obs"]]
    undecided += [(u["unit"], f"solver undecided on {o[0]}") for u in units for o in u["obs"] if o[1] == "unknown"]
    known = known_findings(prop)
    fails = rep.get("failures", [])
    new, seen = [], set()
    for f in fails:
        k = next((d for d in known if d.get("match") == f.get("finding")), None)
        if k is not None:
            seen.add(k["match"])
        else:
            new.append(f)

    code = 0
    violations = 0
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}" + ("" if k["match"] in seen or a.no_replay else " (not reproduced in this run)"))
    if new:
        path = rdir / f"{prop}-violation.json"
        path.write_text(json.dumps({"property": prop, "failing_inputs": new[:20], "refuted_obligations": [
            {"unit": u, "obligation": o[0], "detail": o[2], "model": o[3]} for u, o in refuted[:20]],
            "rerun": f"cd /verif && {REPLAY_PY} replay/run.py {prop} --seed {seed} --tier {tier}"}, indent=1, default=str))
        print(f"failing input: {json.dumps(new[0], default=str)[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
        code, violations = 1, len(new)
    elif refuted:
        path = rdir / f"{prop}-violation.json"
        path.write_text(json.dumps({"property": prop, "failing_inputs": [], "refuted_obligations": [
            {"unit": u, "obligation": o[0], "detail": o[2], "model": o[3]} for u, o in refuted[:40]],
            "note": "the obligation fails; the replay on the real code found no failing input"}, indent=1, default=str))
        print(f"failed obligation: {refuted[0][0]} / {refuted[0][1][0]}: {refuted[0][1][2][:400]}")
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        code, violations = 1, len(refuted)

    entered = sorted({f for u in units for f in u["entered"]})
    assumptions = sorted({x for u in units for x in u["assumptions"]} | set(getattr(mod, "ASSUMPTIONS", [])))
    assumptions.append("machine arithmetic is treated as exact real arithmetic in the proofs (the replay uses floats)")
    coverage = {
        "obligations": len(obs), "discharged": sum(o[1] == "proved" for o in obs),
        "checker_cmd": f"python3-vt check.py {prop} --tier {tier}",
        "trusted_base": TRUSTED + list(getattr(mod, "TRUSTED", [])),
        "functions_under_contract": entered,
        "units": [{"unit": u["unit"], "obligations": len(u["obs"]), "proved": sum(o[1] == "proved" for o in u["obs"]),
                   "wall_s": round(u["wall"], 2), "undecided": u["why"]} for u in units],
        "back_end": "exact ring normalisation + z3", "solver_s": round(sum(u["solver_s"] for u in units), 3),
        "solver_queries": sum(u["queries"] for u in units), "paths": sum(u["paths"] for u in units),
        "sample_obligations": [o[0] for o in obs[:: max(1, len(obs) // 12)]][:14],
        "undecided_units": [f"{u}: {w}" for u, w in undecided],
        "bounded_stand_in": bool(undecided),
        "evaluations": rep.get("evaluations", 0), "distinct_nontrivial": rep.get("distinct", rep.get("evaluations", 0)),
        "rule": rep.get("rule", "replay of the run-time contracts on the real code"),
        "samples": rep.get("samples", [])[:6], "replay_status": rep.get("status"), "replay_note": rep.get("why"),
        "replay_bound": rep.get("bound", ""), "known_findings_seen": sorted(seen),
    }
    level = "proof" if obs and not undecided else "exploration"
    (ev / f"{prop}.json").write_text(json.dumps({
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": coverage,
        "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": violations}, indent=1, default=str))
    rout.unlink(missing_ok=True)
    print(f"{prop}: {coverage['discharged']}/{len(obs)} obligations discharged in {len(units)} units, {len(undecided)} undecided; "
          f"replay {rep.get('status')} ({rep.get('evaluations', 0)} evaluations, {len(fails)} failing); {time.time() - t0:.1f} s")
    for u, w in undecided[:10]:
        print(f"  undecided (bounded stand-in only): {u}: {str(w)[:300]}")
    if rep.get("status") not in ("ok", "skipped", "failed"):
        print(f"  replay {rep.get('status')}: {str(rep.get('why'))[:1500]}")
    if a.v:
        for u in units:
            if u["crash"]:
                print(u["crash"])
            for o in u["obs"]:
                if o[1] != "proved":
                    print("  ", u["unit"], o)
            print("  ", u["unit"], len(u["obs"]), f"{u['wall']:.2f}s")
    return code


if __name__ == "__main__":
    sys.exit(main())
