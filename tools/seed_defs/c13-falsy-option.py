PROPERTY = 'C13'
NEEDS = 'a proxy whose default timeout is finite and a call that overrides it with _timeout=None'
BREAKS = 'A call option that is falsy (None, no timeout) does not override the default of the proxy.'
EDITS = [('proxy.py', "            opts[k] = kwargs.pop('_'+k, opts[k])", "            opts[k] = kwargs.pop('_'+k, None) or opts[k]")]
DEMO = '''
from teleprox import RPCServer
from teleprox.client import RPCClient
srv = RPCServer(); srv.run_in_thread()
c = RPCClient(srv.address)
t = c._import('time')
t._set_proxy_options(timeout=0.2)
t.sleep(0.8, _timeout=None)
'''
