#!/usr/bin/env python3
"""Nothing is built: checks that what the checks need is installed."""
import os
import subprocess
VT = '/opt/veriftools/pyvenv/bin/python'
REAL = '/opt/venv/bin/python'
subprocess.check_call([VT if os.path.exists(VT) else 'python3', '-c', 'import z3; print("z3", z3.get_version_string())'])
subprocess.check_call([REAL, '-c', 'import blosc, numpy, six, deprecated; print("blosc", blosc.__version__)'])
