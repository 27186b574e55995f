"""Context for run-time contracts."""
import os
import random
import traceback

import numpy as np

REPO = os.environ.get("PV_REPO", "/repo")


from fake_errors import FakeUnsupported  # noqa: E402


def raised_by_repo(e):
    """The exception comes out of repository code (not out of a stand-in or the harness)."""
    tb = traceback.extract_tb(e.__traceback__)
    return any(f.filename.startswith(REPO + "/src") for f in tb)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f"{prop}-{seed}")
        self.np = np.random.default_rng(abs(hash((seed, int(prop[1:])))) % 2**32)
        self.failures, self.samples, self.unsupported = [], [], set()
        self.evaluations = 0
        self.distinct = set()
        self.rule = "each evaluation is one run-time contract on the real code; distinct by its label"
        self.bound = ""
        self.deep = tier == "thorough"

    def fail(self, what, inp, finding=None):
        if len(self.failures) < 60:
            self.failures.append({"what": what, "input": inp, "finding": finding})

    def check(self, label, ok, inp=None, finding=None):
        self.evaluations += 1
        self.distinct.add(label)
        if len(self.samples) < 6 and (not self.samples or self.samples[-1]["case"].split(":")[0] != label.split(":")[0]):
            self.samples.append({"case": label, "input": repr(inp)[:300], "held": bool(ok)})
        if not ok:
            self.fail(label, inp, finding)
        return bool(ok)

    def close(self, label, got, want, tol=1e-9, inp=None, finding=None):
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if got.shape != want.shape:
            return self.check(label, False, {"shape": got.shape, "expected": want.shape, "input": inp}, finding)
        sc = max(1.0, float(np.max(np.abs(want))) if want.size else 1.0)
        ok = bool(np.all(np.isfinite(got))) and (got.size == 0 or float(np.max(np.abs(got - want))) <= tol * sc)
        if ok:
            return self.check(label, True, inp, finding)
        i = np.unravel_index(np.argmax(np.abs(np.nan_to_num(got - want, nan=1e300))), got.shape) if got.size else ()
        return self.check(label, False, {"input": inp, "index": list(map(int, i)), "got": float(got[i]) if got.size else None,
                                         "expected": float(want[i]) if got.size else None}, finding)

    def guard(self, label, fn, inp=None):
        """Run one case; exceptions raised by repository code are failures, stand-in gaps are skipped."""
        try:
            return fn()
        except FakeUnsupported as e:
            self.unsupported.add(f"{label}: {e} {traceback.format_exc()[-600:]}")
        except Exception as e:  # noqa: BLE001
            if not raised_by_repo(e):
                raise
            self.evaluations += 1
            self.fail(f"{label}: unexpected exception", {"input": inp, "exception": f"{type(e).__name__}: {e}",
                                                        "at": traceback.format_exc()[-900:]})
        return None
