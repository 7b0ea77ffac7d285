PROPERTY = 'C02'
NEEDS = 'a request whose callable raises SystemExit (or KeyboardInterrupt) in the server'
BREAKS = 'Only Exception is caught while a request is processed, so a callable that raises SystemExit ends the server loop.'
EDITS = [('server.py', "            exc = None\n        except:\n            exc = sys.exc_info()\n", "            exc = None\n        except Exception:\n            exc = sys.exc_info()\n")]
DEMO = '''
import sys
from teleprox import RPCServer
from teleprox.client import RPCClient, RemoteCallException
srv = RPCServer(); srv.run_in_thread()
c = RPCClient(srv.address)
rsys = c._import('sys')
try:
    rsys.exit(3, _timeout=3)
except RemoteCallException:
    pass
assert c._import('os').getpid(_timeout=3) > 0
'''
