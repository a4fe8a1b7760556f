"""Runs the repository's unit tests on the instrumented modules (concrete values): the instrumentation and the engine's
stand-ins for builtins must not change what the code does."""
import sys, os
sys.path.insert (0, os.path.dirname (os.path.abspath (__file__)))
from vcx import boot, core
core.CTX.work = []
boot.install ()
import pytest
tests = [f'{boot.REPO}/lulua/{f}' for f in sorted (os.listdir (boot.REPO + '/lulua')) if f.startswith ('test_')]
sys.exit (pytest.main (['-q', '-p', 'no:cacheprovider', '-p', 'no:cov', '-c', '/dev/null', '--import-mode=importlib', '-x' if '-x' in sys.argv else '-q', '--rootdir', boot.REPO] + tests + [a for a in sys.argv[1:] if a != '-x']))
