PROPERTY = 'C06'
NEEDS = 'an object id is allocated after another, older object has been released while a younger one is still proxied'
BREAKS = 'The object id is taken from the number of live objects, so that it is reused: the proxy of a new object designates an older, different object.'
EDITS = [('server.py', "            oid = self._next_object_id\n", "            oid = len(self._proxy_id_map)\n")]
DEMO = '''
from teleprox import RPCServer
srv = RPCServer()
class X: pass
a, b, c = X(), X(), X()
pa, pb = srv.get_proxy(a), srv.get_proxy(b)
srv.process_action('delete', {'obj_id': pa._obj_id, 'ref_id': pa._ref_id}, 'auto', b'x')
pc = srv.get_proxy(c)
assert pc._obj_id != pb._obj_id
assert srv.unwrap_proxy(pc) is c and srv.unwrap_proxy(pb) is b
'''
