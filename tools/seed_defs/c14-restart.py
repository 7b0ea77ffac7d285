PROPERTY = 'C14'
NEEDS = 'responses of other requests keep arriving while a response is awaited with a timeout'
BREAKS = 'Each message that arrives starts the timeout anew.'
EDITS = [('client.py', """        start = time.perf_counter()
        while not future.done():
""", """        while not future.done():
            start = time.perf_counter()
""")]
DEMO = '''
import time
from teleprox import RPCServer
from teleprox.client import RPCClient
srv = RPCServer(); srv.run_in_thread()
c = RPCClient(srv.address)
t = c._import('time')
others = [t.sleep(0.2, _sync='async') for i in range(12)]
last = c.ping(sync='async')
start = time.time()
try:
    last.result(timeout=0.5)
except TimeoutError:
    pass
else:
    raise AssertionError('no timeout')
assert time.time() - start < 1.5
'''
