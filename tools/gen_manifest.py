#!/usr/bin/env python3
"""MANIFEST.json from the rule modules present."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.path.insert(0, HERE)
from reasons import REASONS
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/tpcheck/rules/%s.py' % (ROOT, i.lower())) and i not in REASONS:
        m = importlib.import_module('tpcheck.rules.' + i.lower())
        assert m.EXPLANATION.strip()
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': getattr(m, 'TECHNIQUE', 'path-sensitive abstract interpretation of the source (AST), rules over path summaries'),
                       'level': 'other',
                       'level_note': ' '.join(m.EXPLANATION.split()) + ' Assumes: ' + '; '.join(m.ASSUMPTIONS or ['nothing beyond the Python and zmq semantics built into the analysis']) + '.'})
    else:
        na.append({'property': i, 'reason': REASONS.get(i, 'A static rule for this property has not been built.')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'check.py <id> analyses the source in /repo (TP_REPO overrides) without running it; see DESIGN.md.'},
          open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
