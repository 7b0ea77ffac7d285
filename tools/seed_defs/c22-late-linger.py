PROPERTY = 'C22'
NEEDS = 'something accepts the connection but never answers the handshake, so that the construction of the client fails'
BREAKS = 'The linger time of the connection is set only once the connection is established; after a failure the pending pings keep the process from exiting.'
EDITS = [('client.py', "            self._socket.linger = 1000\n", ""), ('client.py', "            self.ensure_connection()\n", "            self.ensure_connection()\n            self._socket.linger = 1000\n")]
DEMO = '''
import subprocess, sys
code = """
import socket
s = socket.socket(); s.bind(('127.0.0.1', 0)); s.listen(5)
from teleprox.client import RPCClient
try:
    RPCClient('tcp://127.0.0.1:%d' % s.getsockname()[1])
except TimeoutError:
    pass
else:
    raise AssertionError
import zmq
zmq.Context.instance().term()
"""
p = subprocess.Popen([sys.executable, '-c', code])
try:
    assert p.wait(15) == 0
finally:
    p.kill()
'''
