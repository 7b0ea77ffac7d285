PROPERTY = 'C07'
NEEDS = 'proxies of two different servers that happen to have the same object id'
BREAKS = 'Equality of proxies no longer compares the servers: objects number n of two servers are reported equal.'
EDITS = [('proxy.py', "            args[0]._rpc_addr == self._rpc_addr and\n", "")]
DEMO = '''
from teleprox.proxy import ObjectProxy
class P(ObjectProxy):
    def _deferred_attr(self, attr, **k):
        return lambda *a, **kw: 'asked'
a = P(b'tcp://127.0.0.1:5001', 3, 1, 't', ())
b = ObjectProxy(b'tcp://127.0.0.1:5002', 3, 1, 't', ())
assert (a == b) is not True
'''
