"""Development self-test: the repository's own tests pass when its modules run instrumented (concrete values).

Run with the test interpreter: PYTHONPATH=/repo /opt/venv/bin/python tools/selftest.py
"""

import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
sys.path[:0] = [VERIF]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from sx import engine, instr  # noqa: E402

instr.install([REPO], prefixes=("edk2toollib",))
engine.E = engine.Engine()
import pytest  # noqa: E402

sys.exit(pytest.main(["-q", REPO + "/tests.unit", "--ignore", REPO + "/tests.unit/database/test_package_table.py", "-p", "no:cacheprovider"]))
