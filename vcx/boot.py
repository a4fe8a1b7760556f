"""Imports the instrumented modules of the repository."""
import sys, os
sys.dont_write_bytecode = True
REPO = os.environ.get ('VERIF_REPO', '/repo')
from . import core, models, instr
finder = instr.Finder (REPO, models.BUILTINS, models.Hooks, models.patch)
def install ():
    if finder not in sys.meta_path:
        sys.meta_path.insert (0, finder)
        if REPO not in sys.path: sys.path.insert (0, REPO)
