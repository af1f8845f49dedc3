"""Writes MANIFEST.json from properties.jsonl and the INFO of the contract modules."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(l)['id']
    try:
        info = importlib.import_module('mirver.props.' + pid.lower()).INFO
        tech = 'contract-based deductive verification of the extracted MIR (mirver, z3/cvc5); random companion on the real code'
    except ModuleNotFoundError:
        info, tech = {'level': 'exploration', 'note': 'Bounded stand-in only: independent oracle on random inputs to the real code; no contract yet.'}, \
            'random inputs to the real code against an independent oracle'
    checks.append({'property': pid, 'quick_cmd': f'python3-vt check.py {pid}', 'thorough_cmd': f'VERIF_TIER=thorough python3-vt check.py {pid}',
                   'evidence_file': f'evidence/{pid}.json', 'technique': tech, 'level': info['level'],
                   'level_note': info['note'] + (' Not proved: ' + '; '.join(info['bounded']) + '.' if info.get('bounded') else '')})
m = {'version': 1, 'setup_cmd': 'python3-vt check.py setup',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read the compiler\'s MIR of the unmodified sources', 'source_commits': []},
     'checks': checks, 'not_applicable': [],
     'notes': 'Every check rebuilds MIR, oracles and (C18) the Python module from /repo. Undecided obligations never alarm; see DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
