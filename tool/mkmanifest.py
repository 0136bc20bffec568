#!/usr/bin/env python3
"""Writes ../MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T_ENG = 'abstract interpretation of the LLVM IR of all public operations, driven by a most general client to a fixpoint'
N_ENG = ('Decides the rule for every history of the operations in the analysed scenarios, in every abstract state, over the listed payload kinds and configurations; loops and history length are not bounded. '
         'Trusts clang, the transfer functions for Boost.Context fibers and the C++ runtime, and the modelling assumptions in DESIGN.md (abstraction of payload values, opaque user types, at most the number of coroutines of the scenario alive at once).')
T = {
 'C19': ('type-level assertions and compile-fail witnesses', 'Each clause is an assertion or a misuse program; covers the enumerated payload forms, compilers and standards.'),
 'C20': ('type-level archetypes: minimal types instantiating every public operation; ' + T_ENG + ' for alignment and placement of every shape of payload and callable', 'Acceptance holds for the enumerated archetypes, which carry nothing beyond the documented requirements; both compilers, all standards. ' + N_ENG),
 'C21': (T_ENG + '; comparison of the observation sets of all configurations', N_ENG),
 'C22': (T_ENG + '; syntax-tree queries for static and thread storage, IR effect analysis of global operands and thread identity', 'Syntactic rule over every declaration in the headers and every operand of every instantiated function; data races inside one coroutine are the user\'s and excluded.'),
 'C23': ('header compilation matrix, linkage analysis of the IR, syntax-tree queries', 'All public headers, pairwise orders, both compilers; linkage of every definition instantiated by the analysis roots.'),
}
checks = []
for i in list(range(1, 29)) + [32]:
    p = 'C%02d' % i
    t, n = T.get(p, (T_ENG, N_ENG))
    if p in ('C17', 'C18'): t += '; type-level witnesses for the iterator traits'
    if p == 'C24': t += '; type-level witnesses for the published names'
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': 'other', 'level_note': n})
na = [('C29', 'The register save and restore is Boost.Context assembly, which is not in this repository; no source of this repository decides it.'),
      ('C30', 'Equality of the results of arbitrary user algorithms quantifies over runtime data; no sound static argument in reach bounds it. The guarantees it composes from are C01-C18 and C26.'),
      ('C31', 'Guard pages and stack growth are run-time effects of Boost.Context, the kernel and the split-stack runtime; the part decided here (the names denote those allocators) is in C24.')]
json.dump({'version': 1, 'setup_cmd': 'python3 check.py engine', 'checks': checks,
           'not_applicable': [dict(property=a, reason=b) for a, b in na],
           'notes': 'No hooks in /repo are needed. Repaired defects are listed in known_findings.json and DESIGN.md.'},
          open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
