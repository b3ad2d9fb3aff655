#!/usr/bin/env python3
"""run.py Cxx [--tier quick|thorough] [--facet NAME] [--replay FILE]"""
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(PY, [PY, *sys.argv])
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
for var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(var, "1")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))

import harness  # noqa: E402

if __name__ == "__main__":
    if "--setup" in sys.argv:
        harness.ensure_deps()
        sys.exit(0)
    sys.exit(harness.main(sys.argv[1], sys.argv[2:]))
