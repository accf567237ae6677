#!/usr/bin/env python3
"""Writes MANIFEST.json from contracts/props.py."""
import json, sys
sys.path.insert(0, '/verif')
from contracts.props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = []
for p in ids:
    if p not in PROPS:
        continue
    c = PROPS[p]
    short = [q.replace('udapi.core.', '').replace('udapi.block.', '') for q in c['contracts']]
    note = f"Proved for all inputs (obligations discharged by z3/cvc5 from the current source): {', '.join(short)}. " if short else ''
    if c.get('bounded'):
        note += 'Bounded run-time contract check only (not counted as proved): ' + '; '.join(f"{q.replace('udapi.core.', '').replace('udapi.block.', '')} ({w})" for q, w in c['bounded'].items()) + '. '
    note += c.get('note', '') + ' Trusted: the pyvc translator, z3/cvc5, the typed heap schema; assumptions per run are listed in the evidence file.'
    checks.append({'property': p, 'quick_cmd': f'python3-vt tools/check.py {p} --tier quick',
                   'thorough_cmd': f'python3-vt tools/check.py {p} --tier thorough',
                   'technique': c.get('technique', 'run-time checking of the contract on the real code, bounded (stand-in, nothing proved yet)' if not short else 'contract-based deductive verification of the real Python source (pyvc: weakest preconditions to z3/cvc5), failures replayed by run-time contract checking'),
                   'level': c.get('level', 'proof' if short else 'exploration'), 'level_note': note.strip()})
na = [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'not built yet')} for p in ids if p not in PROPS]
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3"', 'checks': checks, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
