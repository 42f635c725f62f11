#!/usr/bin/env python3
"""Nothing is built: the checks compile gsapi from /repo's working tree themselves.  Says what they will run with."""
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run

print('CPython: %s, Jython: %s' % (run.PY, run.JYTHON if os.path.exists(run.JYTHON) else 'none'))
os.makedirs(os.path.join(run.VERIF, 'evidence'), exist_ok=True)
sys.exit(0 if os.path.exists(run.PY) or shutil.which(run.PY) else 1)
