PROPERTY = 'C16'
NEEDS = 'a registration is refused because the thread has a server, and the refused server is then registered elsewhere'
BREAKS = 'A refused registration marks the server as belonging to the thread all the same.'
EDITS = [('server.py', """            RPCServer.servers_by_thread[key] = srv
        srv._thread = key
""", """            RPCServer.servers_by_thread[key] = srv
"""), ('server.py', """        assert srv._thread is None, "Server has already been registered."
""", """        assert srv._thread is None, "Server has already been registered."
        srv._thread = key
""")]
DEMO = '''
import threading
from teleprox import RPCServer
a, b = RPCServer(), RPCServer()
a.run_lazy()
try:
    b.run_lazy()
except KeyError:
    pass
else:
    raise AssertionError('registered')
assert b._thread is None
'''
