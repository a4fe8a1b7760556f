#!/usr/bin/env python3
"""Nothing to build: checks that the interpreters and solvers the checks need are there."""
import subprocess, sys
for cmd in (['/opt/venv/bin/python', '-c', 'import yaml, pygtrie, brotli, html5lib'], ['python3-vt', '-c', 'import z3, cvc5'], ['gcc', '--version']):
    r = subprocess.run (cmd, capture_output=True, text=True)
    if r.returncode:
        print (cmd, r.stderr); sys.exit (1)
print ('ok')
