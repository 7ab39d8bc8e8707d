#!/usr/bin/env python3
""" Nothing to build: the checks run the Python sources of /repo directly. Only make sure the interpreter with its dependencies is there. """
import subprocess, sys, os
sys.exit (subprocess.call (['/opt/venv/bin/python', '-W', 'ignore', '-c', 'import sys; sys.path.insert (0, "/repo"); import lulua.text, lulua.stats, lulua.render, lulua.report, lulua.optimize'],
    env=dict (os.environ, PYTHONDONTWRITEBYTECODE='1')))
