"""Run-time contracts on the real code. Writes a JSON report."""
import argparse
import importlib
import json
import os
import signal
import sys
import time
import traceback
from pathlib import Path

HERE = Path(__file__).resolve().parent
REPO = os.environ.get("PV_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [f"{REPO}/src", str(HERE / "fakes"), str(HERE.parent)]

from replay import harness  # noqa: E402


class Limit(BaseException):
    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--out")
    ap.add_argument("--limit", type=int, default=500)
    a = ap.parse_args()
    ctx = harness.Ctx(a.prop, a.tier, a.seed)
    status, why = "ok", None

    def on_alarm(*_):
        raise Limit()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(a.limit)
    t0 = time.time()
    try:
        m = importlib.import_module(f"replay.{a.prop.lower()}")
        m.run(ctx)
        ctx.rule = getattr(m, "RULE", ctx.rule)
        ctx.bound = getattr(m, "BOUND", ctx.bound)
    except Limit:
        why = "time limit"
    except harness.FakeUnsupported as e:
        status, why = "unsupported", f"{e}\n{traceback.format_exc()[-1500:]}"
    except Exception as e:  # noqa: BLE001
        if harness.raised_by_repo(e):
            ctx.fail("unexpected exception from the code", {"exception": f"{type(e).__name__}: {e}", "at": traceback.format_exc()[-1200:]})
        else:
            status, why = "error", traceback.format_exc()[-3000:]
    signal.alarm(0)
    if ctx.failures:
        status = "failed"
    if ctx.unsupported:
        why = (why or "") + " / ".join(sorted(ctx.unsupported))[:1500]
        if status == "ok" and not ctx.evaluations:
            status = "unsupported"
    rep = {"status": status, "why": why, "failures": ctx.failures, "evaluations": ctx.evaluations, "distinct": len(ctx.distinct),
           "samples": ctx.samples, "rule": ctx.rule, "bound": ctx.bound, "wall": time.time() - t0}
    s = json.dumps(rep, default=str, indent=1)
    if a.out:
        Path(a.out).write_text(s)
    else:
        print(s)
    os._exit(1 if ctx.failures else 0)


if __name__ == "__main__":
    main()
