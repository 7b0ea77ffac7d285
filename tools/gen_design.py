#!/usr/bin/env python3
"""DESIGN.md from design_head.md, the rule modules, the planted bugs and the mutants."""
import glob, importlib, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path[:0] = [ROOT, HERE]
from reasons import REASONS
from mutants import MUTANTS
out = [open(HERE + '/design_head.md').read().rstrip(), '']
seeds = {}
for m in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
fixed = [l.split(' ', 3) for l in open(ROOT + '/known_findings.txt') if l.startswith('fixed:')]
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
for p in props:
    i = p['id']
    if i in REASONS:
        continue
    m = importlib.import_module('tpcheck.rules.' + i.lower())
    src = open(m.__file__).read()
    rules = sorted(set(re.findall(r"'(%s\.[a-z-]+)'" % i, src)))
    n = sum(1 for props_, _ in MUTANTS.values() if i in props_)
    out += ['### %s  %s' % (i, p['title']), '', ' '.join(m.EXPLANATION.split()), '',
            '*Beyond tests:* ' + ' '.join(p['why_tests_cant'].split()), '',
            '*Assumes:* ' + ('; '.join(m.ASSUMPTIONS) or 'nothing further') + '.  ' +
            '*Rules:* ' + ', '.join(r.split('.')[1] for r in rules) + '.', '']
    fx = [f for f in fixed if f[1] == 'property=' + i]
    out += ['*Planted:* ' + '; '.join('`%s` (%s) - caught' % (k, d['what_it_breaks'].rstrip('.')) if d.get('caught', True) else '`%s` (%s) - MISSED' % (k, d['what_it_breaks']) for k, d in seeds.get(i, [])) +
            '.  *Mutants:* %d.' % n + ('  *Repaired:* ' + ', '.join(f[2] for f in fx) + '.' if fx else ''), '']
out += ['## Not applicable', '']
for p in props:
    if p['id'] in REASONS:
        out.append('* **%s %s** - %s' % (p['id'], p['title'], REASONS[p['id']]))
open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
