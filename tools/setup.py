#!/usr/bin/env python3
"""setup_cmd: builds the harness once and runs its oracle self-test."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vm import core  # noqa: E402

b = core.build("auto", "", "checked")
sys.exit(subprocess.run([b, "hist", "cases=50"], stdout=subprocess.DEVNULL).returncode)
