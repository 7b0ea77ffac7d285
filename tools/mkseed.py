#!/usr/bin/env python3
"""Build and confirm planted bugs from tools/seed_defs/<id>.py.

Each definition: PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (python source).
mkseed.py [-n] [id...]   (-n: do not run the test suite)"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', QT_QPA_PLATFORM='offscreen', XDG_RUNTIME_DIR='/root/.xdg-runtime')
os.makedirs('/root/.xdg-runtime', mode=0o700, exist_ok=True)
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
SH = '''#!/bin/bash
# exit 0: the property holds; nonzero: broken.  cwd: the repository.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 QT_QPA_PLATFORM=offscreen XDG_RUNTIME_DIR=${XDG_RUNTIME_DIR:-/tmp}
exec timeout 120 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, timeout=400):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)


def tests(d):
    x = d + '/.junit.xml'
    sh(['timeout', '-k', '10', '300', '/usr/bin/tini', '-s', '--', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=120',
        '--ignore=teleprox/tests/test_logging.py', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + x], d)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(x).iter('testcase'):
        if not list(x for x in c if x.tag in ('failure', 'error', 'skipped')):
            ok.add('%s::%s' % (c.get('classname'), c.get('name')))
    return sorted(t for t in STABLE if t not in ok)


def build(sid, run_tests):
    spec = importlib.util.spec_from_file_location('d', HERE + '/seed_defs/%s.py' % sid)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    d = tempfile.mkdtemp(prefix='tpseed.')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/r'], check=True)
        r = d + '/r'
        for f, old, new in m.EDITS:
            p = r + '/teleprox/' + f
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old[:70])
            s = s.replace(old, new)
            compile(s, p, 'exec')
            open(p, 'w').write(s)
        diff = sh(['git', 'diff'], r).stdout
        # lines removed must be original ones
        out = d + '/s'
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(m.DEMO)
        open(out + '/demo.sh', 'w').write(SH)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': m.PROPERTY, 'needs': m.NEEDS, 'what_it_breaks': m.BREAKS}, open(out + '/meta.json', 'w'), indent=1)
        orig = new = 0
        cur = None
        base = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], r).stdout.strip()
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                cur = l[6:]
                blame = sh(['git', 'blame', '-l', '-s', '--root', 'HEAD', '--', cur], r).stdout.splitlines()
            elif l.startswith('@@'):
                n = int(l.split()[1].split(',')[0][1:])
            elif l.startswith('-') and not l.startswith('---'):
                if blame[n - 1].lstrip('^')[:30] == base[:30]:
                    orig += 1
                else:
                    new += 1
                n += 1
            elif l.startswith(' '):
                n += 1
        clean = sh([out + '/demo.sh'], '/repo').returncode
        pr = sh([out + '/demo.sh'], r)
        msg = 'demo clean=%d patched=%d; removed lines original=%d mine=%d' % (clean, pr.returncode, orig, new)
        good = clean == 0 and pr.returncode != 0 and orig and not new
        if good and run_tests:
            t = tests(r)
            msg += '; tests failing: %s' % (t or 'none')
            good = not t
        if not good:
            msg += '\n' + (pr.stdout + pr.stderr)[-800:]
            if clean:
                c = sh([out + '/demo.sh'], '/repo')
                msg += '\nCLEAN: ' + (c.stdout + c.stderr)[-800:]
        if good and run_tests:
            dst = ROOT + '/seeded/' + sid
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(out, dst)
        print('%-24s %s %s' % (sid, 'OK ' if good else 'BAD', msg), flush=True)
        return good
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    a = sys.argv[1:]
    ids = [x for x in a if not x.startswith('-')] or sorted(f[:-3] for f in os.listdir(HERE + '/seed_defs') if f.endswith('.py'))
    def safe(i):
        try:
            return build(i, '-n' not in a)
        except Exception as exc:
            print('%-24s ERROR %r' % (i, exc), flush=True)
    bad = [i for i in ids if not safe(i)]
    print('bad:', bad)
