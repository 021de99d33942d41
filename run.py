#!/usr/bin/env python3
"""Runs the checks: run.py <property> [--tier quick|thorough]   |   run.py --replay <file>"""
import os
import sys

VENV_PY = "/opt/venv/bin/python"
Z3_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
HERE = os.path.dirname(os.path.abspath(__file__))

if os.environ.get("VX_CHILD") != "1":
    env = dict(os.environ)
    env.update(VX_CHILD="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    env.pop("PYTHONPATH", None)
    env.pop("PYTHONHOME", None)
    os.execve(VENV_PY, [VENV_PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)

REPO = os.environ.get("VX_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(1, HERE)
sys.path.append(Z3_SITE)

from vx import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
