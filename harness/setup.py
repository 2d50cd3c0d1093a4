"""Checks that the framework can run here: parses every specification."""
import os
import subprocess
import sys
import tempfile
sys.dont_write_bytecode = True
import tlc

with tempfile.TemporaryDirectory() as d:
    tlc.programs(d)
subprocess.check_call(["/opt/venv/bin/python", "-c", "import Cryptodome, requests, six"])
print("ready")
