#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the specification units present"""
import json, glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
NA = {
}
NOTES = {
    'C21': 'contracts in specs/C21_special.cpp over all 512 combinations of deleted/trivial/nothrow/throwing special members and trivial/non-trivial destructor; that the declared operations call what they should, let exceptions through and never terminate is proved over all paths; what the type traits answer is a ground obligation (the front end evaluates the trait, the verifier discharges its value)',
}
checks, na = [], []
for ln in open('properties.jsonl'):
    p = json.loads(ln)
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif glob.glob('specs/%s_*.cpp' % i):
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt check.py %s' % i,
            'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % i,
            'technique': 'contract-based deductive verification of the real header: VC generation over its unoptimised LLVM IR (clang++-18), obligations discharged by z3/cvc5',
            'level': 'proof',
            'level_note': NOTES.get(i, 'contracts in specs/%s_*.cpp, for all inputs, states, paths and element values at the named representative instantiations; four build configurations (C++17/20, debug/NDEBUG)' % i),
        })
    else:
        na.append({'property': i, 'reason': 'contracts not written yet'})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, cvc5"', 'checks': checks, 'not_applicable': na}, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
