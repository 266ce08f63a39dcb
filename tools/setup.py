"""nothing to build: checks that what the checks need is there"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "evidence", "replays"), exist_ok=True)
import z3, cvc5  # noqa: F401,E401
py = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
sys.exit(subprocess.call([py, "-c", "import numpy, pandas"], env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1")))
