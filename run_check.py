#!/opt/venv/bin/python
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
sys.dont_write_bytecode = True
import logging

logging.disable(logging.CRITICAL)
from vlib import runner, srcload

srcload.install()

sys.exit(runner.main(sys.argv[1:]))
