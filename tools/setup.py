"""Nothing to build: checks that the two interpreters and their libraries are present."""
import subprocess
import sys

import z3  # noqa: F401

r = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, petsc4py, ufl, scipy, gmsh"], check=False)
sys.exit(r.returncode)
