#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]

Decides one property of /repo (TP_REPO overrides the location) by static analysis of its source.
exit 0: holds; exit 1: VIOLATION line; exit 2: the analysis could not be carried out.
"""
import importlib
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def known_findings(prop):
    res = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) key=(.+?) :: (.*)$', line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    from tpcheck.project import Project, AnalysisBroken
    from tpcheck.rules.base import Ctx
    try:
        project = Project()
        rule = importlib.import_module('tpcheck.rules.' + prop.lower())
        ctx = Ctx(project, prop)
        ctx.tier = tier
        rule.check(ctx)
    except AnalysisBroken as e:
        if 'ctx' in dir() and ctx.violations:
            return finish(prop, tier, ctx, rule, project, t0)
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        if os.environ.get('TP_DEBUG'):
            traceback.print_exc()
        return 2
    except RecursionError as e:
        print('ANALYSIS-BROKEN property=%s recursion' % prop)
        return 2
    return finish(prop, tier, ctx, rule, project, t0)


def finish(prop, tier, ctx, rule, project, t0):
    known = known_findings(prop)
    fresh = []
    for v in ctx.violations:
        for k, text in known:
            if k == v.key:
                print('KNOWN-FINDING: property=%s %s' % (prop, text))
                break
        else:
            fresh.append(v)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    st = ctx.stats()
    tot = sum(o[0] for o in ctx.obligations.values())
    ok = sum(o[1] for o in ctx.obligations.values())
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': rule.EXPLANATION.strip(),
            'obligations_checked': tot,
            'obligations_met': ok,
            'per_rule': {k: {'checked': o[0], 'met': o[1]} for k, o in sorted(ctx.obligations.items())},
            'paths_enumerated': st['paths'],
            'operations_seen': st['operations'],
            'statements_interpreted': st['statements'],
            'functions_analysed': st['functions_analysed'],
            'modules_parsed': len(project.modules),
            'samples': ctx.samples[:20],
        },
        'assumptions': list(getattr(rule, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 3),
        'violations': len(fresh),
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for r, o in sorted(ctx.obligations.items()):
        print('%s: %d checked, %d met' % (r, o[0], o[1]))
    print('%s: %d obligations over %d paths, %d functions, %.1f s' % (prop, tot, st['paths'], len(st['functions_analysed']), time.time() - t0))
    if fresh:
        rep = os.path.join(HERE, 'evidence', prop + '.report.txt')
        with open(rep, 'w') as f:
            for v in fresh:
                f.write('%s\n  construct: %s\n  at: %s\n  %s\n\n' % (v.rule, v.construct, v.where, v.msg))
        for v in fresh:
            print('  %s\n    construct: %s\n    at: %s\n    %s' % (v.rule, v.construct, v.where, v.msg))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
