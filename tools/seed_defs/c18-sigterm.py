PROPERTY = 'C18'
NEEDS = 'a start fails after the launch of a process that does not die of SIGTERM'
BREAKS = 'A process that is left over from a failed start is only asked to terminate.'
EDITS = [('util.py', "        sig = signal.SIGKILL\n", "        sig = signal.SIGTERM\n")]
DEMO = '''
import os, sys, tempfile, time, signal, shutil
d = tempfile.mkdtemp()
pids = []
try:
    open(os.path.join(d, 'sitecustomize.py'), 'w').write(
        "import signal, os\\nsignal.signal(signal.SIGTERM, signal.SIG_IGN)\\n"
        "open(os.path.join(%r, 'pids'), 'a')\\n" % d)
    os.environ['PYTHONPATH'] = os.pathsep.join([d, os.getcwd()])
    import teleprox.process as pr
    orig = pr.kill_pid
    pr.kill_pid = lambda pid: (pids.append(pid), orig(pid))
    try:
        pr.start_process(daemon=True, serializer='bogus')
    except ValueError:
        pass
    else:
        raise AssertionError('started')
    assert len(pids) == 1, pids
    end = time.time() + 3
    alive = True
    while alive and time.time() < end:
        try:
            alive = open('/proc/%d/stat' % pids[0]).read().rsplit(')')[1].split()[0] != 'Z'
        except FileNotFoundError:
            alive = False
        time.sleep(0.05)
    assert not alive, 'process left behind'
finally:
    for p in pids:
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass
    shutil.rmtree(d)
'''
