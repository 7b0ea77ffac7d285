PROPERTY = 'C01'
NEEDS = 'a remote call without keyword arguments whose target raises an exception that is not an Exception subclass'
BREAKS = 'An operation that fails with GeneratorExit, SystemExit or KeyboardInterrupt is answered as if it had returned None.'
EDITS = [('server.py', "fnargs[1:])\n                    raise", "fnargs[1:])\n                    if isinstance(sys.exc_info()[1], Exception):\n                        raise\n                    result = None")]
DEMO = '''
from teleprox import RPCServer
from teleprox.client import RPCClient, RemoteCallException
srv = RPCServer(); srv.run_in_thread()
c = RPCClient(srv.address)
rsys = c._import('sys')
try:
    r = rsys.exit(3, _timeout=3)
except RemoteCallException as e:
    pass
else:
    raise AssertionError('no error reported: %r' % (r,))
'''
