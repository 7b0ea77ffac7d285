#!/usr/bin/env python3
"""Apply named edits (tools/mutants.py) to a scratch copy of /repo's package and run checks on it.

mut.py [-r] NAME...   run the listed mutants (all when none given) against their properties' checks
-r: refactorings (expected quiet, run every check)"""
import os, shutil, subprocess, sys, tempfile, json, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def one(name, props, edits, quiet, allprops):
    d = tempfile.mkdtemp(prefix='tpmut.')
    try:
        shutil.copytree('/repo/teleprox', d + '/teleprox', ignore=shutil.ignore_patterns('__pycache__'))
        for f, old, new in edits:
            p = d + '/teleprox/' + f
            s = open(p).read()
            if s.count(old) != 1:
                return name, 'BAD-EDIT %s: %d matches of %r' % (f, s.count(old), old[:60]), ''
            s = s.replace(old, new)
            compile(s, p, 'exec')
            open(p, 'w').write(s)
        out = []
        res = {}
        for c in (allprops if quiet else props):
            if not os.path.exists('%s/../tpcheck/rules/%s.py' % (HERE, c.lower())):
                res[c] = 'nocheck'
                continue
            v = tempfile.mkdtemp(prefix='tpver.')
            os.symlink(os.path.abspath(HERE + '/../tpcheck'), v + '/tpcheck')
            shutil.copy(HERE + '/../check.py', v)
            if os.path.exists(HERE + '/../known_findings.txt'):
                shutil.copy(HERE + '/../known_findings.txt', v)
            r = subprocess.run([sys.executable, v + '/check.py', c], capture_output=True, text=True,
                               env=dict(os.environ, TP_REPO=d, PYTHONDONTWRITEBYTECODE='1'))
            shutil.rmtree(v)
            res[c] = {0: 'quiet', 1: 'VIOL'}.get(r.returncode, 'rc%d' % r.returncode)
            if r.returncode != 0:
                out.append('\n'.join(l for l in r.stdout.splitlines() if l.startswith('  ') or 'BROKEN' in l)[:1200] + r.stderr[-600:])
        ok = all(x == ('quiet' if quiet else 'VIOL') for x in res.values())
        return name, ('ok ' if ok else 'FAIL ') + ' '.join('%s=%s' % x for x in res.items() if not quiet or x[1] != 'quiet'), '\n'.join(out)
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[1:]
    verbose = '-v' in args
    ref = '-r' in args
    names = [a for a in args if not a.startswith('-')]
    import mutants
    table = mutants.REFACTORINGS if ref else mutants.MUTANTS
    allprops = sorted(f[:-3].upper() for f in os.listdir(HERE + '/../tpcheck/rules') if f.startswith('c') and f[1:3].isdigit())
    jobs = []
    with cf.ThreadPoolExecutor(8) as ex:
        for name, (props, edits) in table.items():
            if names and not any(name == n or name.startswith(n) or n in props for n in names):
                continue
            jobs.append(ex.submit(one, name, props, edits, ref, allprops))
        bad = 0
        for j in jobs:
            n, r, out = j.result()
            print('%-28s %s' % (n, r))
            if verbose or (ref and not r.startswith('ok')):
                print(out[:2500])
            bad += not r.startswith('ok')
    print('%d run, %d not as expected' % (len(jobs), bad))


main()
