PROPERTY = 'C20'
NEEDS = 'the daemon opens a terminal later on'
BREAKS = 'The new session is created after the second fork: the daemon is the leader of its session and can acquire a controlling terminal.'
EDITS = [('bootstrap.py', """        sys.exit(0)
    os.setsid()
    if os.fork() != 0:
        sys.exit(0)
""", """        sys.exit(0)
    if os.fork() != 0:
        sys.exit(0)
    os.setsid()
""")]
DEMO = '''
import os, teleprox
p = teleprox.start_process(daemon=True)
try:
    assert os.getsid(p.pid) != p.pid
    assert os.getsid(p.pid) != os.getsid(0)
finally:
    p.stop()
'''
