"""Bootstrap: interpreter path, clocks, import of the code under test."""

from __future__ import annotations

import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)
if VT not in sys.path:
    sys.path.append(VT)

import logging  # noqa: E402

import hypothesis  # noqa: E402,F401

from . import vloop  # noqa: E402

if not getattr(vloop, "_patched", False):
    vloop.patch_clocks()
    vloop._patched = True

logging.getLogger("asyncio").setLevel(logging.CRITICAL + 1)
logging.raiseExceptions = False

import warnings  # noqa: E402

warnings.filterwarnings("ignore")

import expression  # noqa: E402,F401
import expression.collections  # noqa: E402,F401
import reactivex  # noqa: E402,F401

sys.pycache_prefix = "/nonexistent/pycache"  # the code under test is always compiled from its source
import aioreactive  # noqa: E402

if not os.path.realpath(aioreactive.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit(f"harness error: aioreactive imported from {aioreactive.__file__}")
