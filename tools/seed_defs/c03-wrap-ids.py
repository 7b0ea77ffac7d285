PROPERTY = 'C03'
NEEDS = 'a client that has issued 65536 requests while an early one is still pending'
BREAKS = 'Request ids wrap around at 16 bits, so the response to a new request can resolve an old one.'
EDITS = [('client.py', "            self.next_request_id += 1\n", "            self.next_request_id = (self.next_request_id + 1) & 0xffff\n")]
DEMO = '''
from teleprox import RPCServer
from teleprox.client import RPCClient
srv = RPCServer(); srv.run_in_thread()
c = RPCClient(srv.address)
c.ping()
ids = set()
orig = c._send_msg if hasattr(c, '_send_msg') else None
seen = []
class Sock:
    def __init__(self, s): self.s = s
    def __getattr__(self, n): return getattr(self.s, n)
    def send_multipart(self, parts, *a, **k): seen.append(bytes(parts[0]))
real = None
for k, v in list(vars(c).items()):
    if type(v).__module__.startswith('zmq') and 'ocket' in type(v).__name__:
        real = (k, v); setattr(c, k, Sock(v))
keep = [c.send('ping', sync='async') for _ in range(65600)]
setattr(c, *real)
assert len(seen) == 65600 and len(set(seen)) == 65600, (len(seen), len(set(seen)))
'''
