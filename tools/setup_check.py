"""setup: nothing to build; checks that interpreter, solvers and the verifier's modules load."""
import pathlib, subprocess, sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
import numpy, scipy  # noqa
from pyvc.z3load import z3
x = z3.Real("x")
s = z3.Solver(); s.add(x * x < 0); assert s.check() == z3.unsat
r = subprocess.run(["/usr/bin/cvc5", "--version"], capture_output=True, text=True)
print("z3", z3.get_version_string(), "|", r.stdout.splitlines()[0] if r.stdout else "cvc5 missing")
