PROPERTY = 'C04'
NEEDS = 'a server closed by an asynchronous close request while other requests are pending'
BREAKS = 'Only a synchronous close request marks the client disconnected.'
EDITS = [('client.py', "        if action == 'close':\n", "        if action == 'close' and sync == 'sync':\n")]
DEMO = '''
import time
from teleprox import RPCServer
from teleprox.client import RPCClient
srv = RPCServer(); srv.run_in_thread()
c = RPCClient(srv.address)
c.ping()
f = c.close_server(sync='async')
assert f.result(timeout=5) is True
t0 = time.time()
try:
    c.ping(timeout=3)
except RuntimeError:
    pass
assert time.time() - t0 < 1
assert c.disconnected()
'''
