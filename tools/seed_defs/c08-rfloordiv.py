PROPERTY = 'C08'
NEEDS = 'a floor division whose right operand is a proxy, with a result that is not a whole number'
BREAKS = 'The reflected floor division is forwarded as a reflected true division.'
EDITS = [('proxy.py', "self._deferred_attr('__rfloordiv__')", "self._deferred_attr('__rtruediv__')")]
DEMO = '''
from teleprox import RPCServer
from teleprox.client import RPCClient
srv = RPCServer(); srv.run_in_thread()
c = RPCClient(srv.address)
four = c.transfer(4)
assert 7 // four == 1
'''
