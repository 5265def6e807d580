#!/usr/bin/env python3
"""Fills the build cache and shows that everything builds."""
import os
import shutil
import sys

sys.dont_write_bytecode = True
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run  # noqa: E402

scratch = tempfile.mkdtemp(prefix="verif-setup-")
try:
    harness = run.copy_harness(scratch)
    run.build_tool(scratch)
    run.build_cli(scratch, harness)
    run.build_inproc(scratch, harness)
    run.build_c(scratch, harness, "faultrun")
    print("ok")
finally:
    shutil.rmtree(scratch, ignore_errors=True)
