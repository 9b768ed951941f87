#!/opt/venv/bin/python
"""Entry point of every check:  run.py CXX [--tier quick|thorough] [--replay FILE] [--jobs N] [--case N]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = dict(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg",
           PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TQDM_DISABLE="1")
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")  # the checks themselves always use /repo
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from mc.core import main  # noqa: E402

main(sys.argv[1:], repo=REPO, root=HERE)
