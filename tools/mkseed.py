"""python3 tools/mkseed.py ID PROP FILE DEMO.py meta.json edits: builds /verif/seeded/ID from a python spec file (see tools/seedkit/specs.py)."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
ENV = ('export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg PETSC_DIR=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real\n'
       'd=$(cd "$(dirname "$0")" && pwd)\nexec timeout 250 /opt/venv/bin/python "$d/demo.py"\n')


def build(i, s):
    out = ROOT / "seeded" / i
    if out.exists():
        shutil.rmtree(out)
    out.mkdir(parents=True)
    with tempfile.TemporaryDirectory(prefix="seed-") as t:
        w = Path(t) / "repo"
        subprocess.run(["git", "clone", "-q", "/repo", str(w)], check=True)
        for f, a, b in s["edits"]:
            p = w / "src/dxss" / f
            x = p.read_text()
            if x.count(a) != 1:
                return f"{i}: edit text found {x.count(a)} times: {a[:60]!r}"
            p.write_text(x.replace(a, b))
        d = subprocess.run(["git", "-C", str(w), "diff"], capture_output=True, text=True, check=True).stdout
        (out / "patch.diff").write_text(d)
        (out / "demo.py").write_text(s["demo"].lstrip())
        (out / "demo.sh").write_text("#!/bin/bash\n" + ENV)
        os.chmod(out / "demo.sh", 0o755)
        (out / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        if s.get("kit", True):
            shutil.copy(ROOT / "tools/seedkit" / s.get("helper", "st.py"), out / s.get("helper", "st.py"))
            shutil.copytree(ROOT / "replay/fakes", out / "fakes", ignore=shutil.ignore_patterns("__pycache__"))
        res = []
        for tree in (w, None):
            if tree is None:
                subprocess.run(["git", "-C", str(w), "checkout", "-q", "--", "."], check=True)
            r = subprocess.run(["bash", str(out / "demo.sh")], cwd=w, capture_output=True, text=True)
            res.append(r)
        # existing tests with the patch
        subprocess.run(["git", "-C", str(w), "apply", str(out / "patch.diff")], check=True)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=str(w / "src"), OMP_NUM_THREADS="1", MPLBACKEND="Agg",
                   PETSC_DIR="/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real")
        tt = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests/test_gmres.py", "tests/test_dxss.py"], cwd=w,
                            env=env, capture_output=True, text=True)
        bad, good = res
        return (f"{i}: patched rc={bad.returncode} clean rc={good.returncode} tests {tt.stdout.count("9 passed")}"
                + ("" if bad.returncode and not good.returncode and '9 passed' in tt.stdout.replace('\x1b[32m', '') else
                   "  <<<<< BAD\n" + good.stdout[-500:] + good.stderr[-1500:] + tt.stdout[-500:] + "\n patched: " + bad.stderr[-600:]))


if __name__ == "__main__":
    sp = importlib.util.spec_from_file_location("specs", sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    for i in (sys.argv[2:] or m.SEEDS):
        print(build(i, m.SEEDS[i]), flush=True)
