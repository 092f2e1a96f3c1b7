#!/usr/bin/env python3
"""Builds once, so that problems of the sandbox show up here. The checks build for themselves."""
import os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
work = tempfile.mkdtemp(prefix='powsim-')
try:
    sys.exit(subprocess.call(['bash', here + '/build.sh', work, os.environ.get('POWSIM_REPO', '/repo')]))
finally:
    shutil.rmtree(work, ignore_errors=True)
