#!/bin/bash
# nothing to build: check that the solver and the repository's environment are importable
exec /opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, numpy, pandas, sklearn
s = z3.Solver(); x = z3.Real('x'); s.add(x * x == 2, x > 0); assert s.check() == z3.sat
print('z3', z3.get_version_string())
P
