#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import families  # noqa: E402

EQ = 'value-graph equivalence of type-checked MIR against a reference (path-sensitive abstract interpretation)'
EQN = ('Per witness definition the verdict covers every input, argument value, error type and sub-parser outcome; the set of definitions is '
       'enumerated, not all of Rust. Trusts rustc up to MIR, nom leaf semantics as modelled in sa/models.py, and opaque sub-parsers being functions '
       'whose remainder is a suffix of their input. Loops over opaque element parsers are compared with a bounded number of iterations where '
       'they are not recognised as folds.')
CHECKS = {}
for c in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C21'):
    CHECKS[c] = (EQ, 'translation_validation', EQN)
CHECKS['C17'] = ('reachability of panicking MIR constructs (path-sensitive abstract interpretation, compared with a total reference)',
                 'translation_validation', EQN + ' Compiled with debug assertions, so that arithmetic overflow counts.')
CHECKS['C22'] = ('relational abstract interpretation of type-checked MIR on a prefix and on an extension of one symbolic input',
                 'other', 'Per witness definition the verdict covers all inputs, all prefixes and extensions, under the assumption that opaque sub-parsers are stable '
                 'themselves and that counted repetitions of stable parsers are (their element parsers are analysed). Definitions are enumerated. Definitions whose '
                 'own attribute expressions look at the input length are outside the property.')
CHECKS['C16'] = ('compile-fail witnesses with compiling twins (the type checker and the macro decide)', 'other',
                 'Exhaustive over the enumerated mistakes x places x spellings (2312 definitions); other mistakes are not covered. Conflicting byte orders on a variant '
                 'itself (not one of its fields) are left open by the documentation and not judged.')
CHECKS['C18'] = ('effect analysis: forbidden statics, callees and hash-ordered iteration over the type-checked MIR of macro, library and generated code; '
                 'guard dominance of the diagnostic printing; expanded-source comparison of repeated definitions', 'other',
                 'Callee and static rules cover every function of both crates and of the enumerated witnesses; dependencies (syn, quote, nom, core) are trusted to be '
                 'deterministic. A user attribute expression with effects is outside.')
CHECKS['C19'] = ('compile witnesses and path resolution: every documented definition type-checks without std/alloc and its generated paths resolve hygienically', 'other',
                 'Enumerated definitions x six scopes (edition 2018/2024, with and without std, alloc, and with user items shadowing prelude names).')
CHECKS['C20'] = ('unsafe-freedom over token trees and MIR, and borrow compile-fail witnesses with compiling twins', 'other',
                 'No unsafe block, function, impl or raw-pointer dereference anywhere in both crates and the generated code; lifetimes of results pinned to the input by '
                 'enumerated borrow witnesses. Soundness of the dependencies is trusted.')
CHECKS.update(families.MANIFEST_EXTRA)
NA = dict(families.NOT_APPLICABLE)
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
for p in props:
    if p not in families.FAMILIES:
        NA.setdefault(p, 'no check yet')
m = {
    'version': 1,
    'setup_cmd': 'python3 -c "from sa import build; build.driver()"',
    'hooks': {'guard': 'none', 'enable': 'no hooks: the machinery reads the MIR of the unmodified tree', 'source_commits': []},
    'checks': [{'property': p, 'quick_cmd': 'python3 -m sa.check %s' % p, 'thorough_cmd': 'python3 -m sa.check %s --tier thorough' % p,
                'technique': CHECKS[p][0], 'level': CHECKS[p][1], 'level_note': CHECKS[p][2]} for p in props if p in families.FAMILIES],
    'not_applicable': [{'property': p, 'reason': NA[p]} for p in props if p not in families.FAMILIES],
    'notes': 'Static analysis only: every check compiles generated witness crates against /repo through a rustc driver and analyses the MIR; nothing of the repository is executed except the derive macro inside the compiler.',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
