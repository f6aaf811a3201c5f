#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, sys
sys.path.insert(0, '.')
from gals.props import WHERE, explain
TECH = {'C22': 'static path-condition and event analysis over compiler IR', 'C23': 'static effect (mod) analysis over compiler IR', 'C36': 'static data-race rule over OpenMP-lowered IR, compile-fail witness for message datatypes', 'C37': 'static operation-sequence and array content analysis over compiler IR', 'C24': 'static symbol resolution and compile-fail witnesses',
        'C19': 'static ownership/typestate analysis over compiler IR, compile-fail witnesses'}
from mkmanifest_data import NA
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in WHERE:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
            technique=TECH.get(i, 'static value-flow / array data-flow abstract interpretation of compiler IR'), level='other',
            level_note=explain.RULES[i] + ' Holds for every grid size, padding and field content at once. Trusts clang\'s front end and mem2reg-level passes, the analysis code in /verif/gals, the library models in /verif/stubs; assumes exact real arithmetic. Anything the analysis cannot decide ends with exit 2, never with a pass.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
json.dump(dict(version=1, setup_cmd='python3 -c "import sys; sys.exit(0)" && clang++-18 --version && opt-18 --version && llvm-link-18 --version', checks=checks, not_applicable=na,
    notes='Static analysis only: nothing of the repository is executed by a check. No hooks in /repo; fix: commits only (see KNOWN_FINDINGS.md).'), open('MANIFEST.json', 'w'), indent=1)
