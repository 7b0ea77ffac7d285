PROPERTY = 'C17'
NEEDS = 'host and process name are long'
BREAKS = 'The identity is cut after 100 bytes, so that only the host and process name remain, which several clients share.'
EDITS = [('client.py', "            self._sock_name = self.name\n", "            self._sock_name = self.name[:100]\n")]
DEMO = '''
import threading
from teleprox import RPCServer, log
from teleprox.client import RPCClient
log.set_host_name('h' * 60)
log.set_process_name('p' * 60)
srv = RPCServer(); srv.run_in_thread()
c = RPCClient(srv.address)
errors = []
def run():
    try:
        RPCClient(srv.address).ping()
    except BaseException as exc:
        errors.append(exc)
t = threading.Thread(target=run); t.start(); t.join()
assert not errors, errors
'''
