PROPERTY = 'C21'
NEEDS = 'a child that died on its own (or was killed by someone else) is stopped'
BREAKS = 'Stopping a child that has already exited raises TimeoutError, at the exit of the parent, too.'
EDITS = [('process.py', """        if self.proc.poll() is not None:
            # process has already exited
            return
""", """        if self.client.disconnected():
            # process has already exited
            return
""")]
DEMO = '''
import os, signal, teleprox
p = teleprox.start_process()
os.kill(p.pid, signal.SIGKILL)
p.wait()
assert p.stop(timeout=1) is None
'''
