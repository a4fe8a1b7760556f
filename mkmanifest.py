#!/usr/bin/env python3
"""Source of MANIFEST.json (run: python3 mkmanifest.py)."""
import json
from config import IDS, PROPS, LEVELS, NOTES
m = dict (version=1, setup_cmd='python3 setup_check.py', checks=[], not_applicable=[
    dict (property='C33', reason='quantifies over interleavings of several operating system processes (multiprocessing queues); sequential pre/postconditions cannot express schedules, and no verifier here has a concurrency logic for Python processes. The sequential contract of each worker is C23.')],
  notes='Deciding method: proof obligations generated on every run from /repo\'s current source by symbolic execution with contracts and loop invariants (prove.py), discharged by z3 and cvc5; runtime contracts on the real code (concrete/) search for and replay counterexamples and are the labelled bounded stand-in where an obligation is undecided. No hooks in /repo.')
for i in IDS:
    p = LEVELS[i] == 'proof'
    m['checks'].append (dict (property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough',
        technique='contract-based deductive verification (generated obligations, z3/cvc5) of the real code' if p else ('contracts on the real code: partly discharged deductively, otherwise bounded runtime contract check' if PROPS[i]['proof'] else 'contracts on the real code, checked at run time (bounded stand-in)'),
        level=LEVELS[i], level_note=NOTES[i] if i in NOTES else 'all obligations discharged without bound on the current tree; assumptions and assumed contracts are listed in the evidence' if p else 'bounded: the contract is evaluated on the real code for generated inputs; not a proof'))
json.dump (m, open ('MANIFEST.json', 'w'), indent=1)
