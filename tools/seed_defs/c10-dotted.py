PROPERTY = 'C10'
NEEDS = 'an attribute whose name contains a dot'
BREAKS = 'The pending attribute lookups are applied by way of a dotted path, so that an attribute with a dot in its name is not found.'
EDITS = [('server.py', "import builtins\n", "import builtins\nimport operator\n"), ('server.py', """        for attr in proxy._attributes:
            obj = getattr(obj, attr)
""", """        if proxy._attributes:
            obj = operator.attrgetter('.'.join(proxy._attributes))(obj)
""")]
DEMO = '''
from teleprox import RPCServer
srv = RPCServer()
class X: pass
x = X(); setattr(x, 'a.b', 5)
p = srv.get_proxy(x)
assert srv.unwrap_proxy(getattr(p, 'a.b')) == 5
'''
