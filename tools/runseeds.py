#!/usr/bin/env python3
"""Run the check of each planted bug's property against a copy of the tree with the bug."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid):
    d = tempfile.mkdtemp(prefix='tpseed.')
    try:
        shutil.copytree('/repo/teleprox', d + '/r/teleprox', ignore=shutil.ignore_patterns('__pycache__'))
        subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + d[1:] + '/r', '%s/seeded/%s/patch.diff' % (ROOT, sid)], cwd='/', check=True)
        prop = json.load(open('%s/seeded/%s/meta.json' % (ROOT, sid)))['property']
        os.makedirs(d + '/v')
        os.symlink(ROOT + '/tpcheck', d + '/v/tpcheck')
        shutil.copy(ROOT + '/check.py', d + '/v')
        r = subprocess.run([sys.executable, d + '/v/check.py', prop], capture_output=True, text=True, env=dict(os.environ, TP_REPO=d + '/r', PYTHONDONTWRITEBYTECODE='1'))
        out = [l for l in r.stdout.splitlines() if l.startswith('  C') or 'BROKEN' in l]
        return sid, prop, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'rc%d' % r.returncode), '; '.join(out)[:200] + r.stderr[-200:]
    finally:
        shutil.rmtree(d)


ids = sys.argv[1:] or sorted(os.listdir(ROOT + '/seeded'))
with cf.ThreadPoolExecutor(8) as ex:
    for r in ex.map(one, ids):
        print('%-26s %s %s %s' % r)
