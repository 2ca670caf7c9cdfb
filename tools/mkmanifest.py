#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from tools import harness
NOTE = json.load(open(os.path.join(H, 'tools', 'levels.json')))
checks = []
for pid in sorted(harness.PROPS):
    proof = os.path.exists(os.path.join(H, 'specs', pid + '.py'))
    checks.append(dict(property=pid, quick_cmd='python3 check.py %s --tier quick' % pid, thorough_cmd='python3 check.py %s --tier thorough' % pid, evidence_file='evidence/%s.json' % pid,
        technique='contracts on the real functions, weakest-precondition style symbolic execution of clang ASTs, obligations discharged by z3/cvc5' if proof else 'bounded stand-in (enumeration over small models) for functions not yet under contract',
        level='proof' if proof else 'exploration', level_note=NOTE.get(pid, 'bounded driver only')))
NI = 'the sources do not compile against the installed CoinUtils: '
na = [dict(property=p, reason=r) for p, r in [
  ('C20', NI + 'OsiCuts::insertIfNotDuplicateAndClean is missing (CglGomory, CglGMI, CglTwomir, CglRedSplit2), so there is no typed AST of the real code to verify and no binary to replay a failure on'),
  ('C21', NI + 'CglProbing uses OsiSolverInterface/CoinUtils members (hashCut helpers) of another version, so there is no typed AST of the real code to verify'),
  ('C22', NI + 'CglPreProcess needs CglProbing and headers that are absent; its statement also relates the optima of two models, which is beyond first-order contracts on these functions'),
  ('C23', NI + 'OsiCuts::insertIfNotDuplicateAndClean is missing (CglFlowCover, CglResidualCapacity, CglMixedIntegerRounding2)'),
  ('C24', NI + 'the conflict-graph headers (CoinStaticConflictGraph, CoinDynamicConflictGraph, CoinCliqueExtender ...) are absent'),
  ('C25', NI + 'CglLandP calls OsiClpSolverInterface members (getClpSolver) of another version'),
  ('C26', 'the postcondition quantifies over optimal solutions of two models (some optimum survives), beyond first-order contracts on these functions; upstream has modes 1 and 2 switched off and mode 4 reads out of bounds on singleton rows')]]
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
