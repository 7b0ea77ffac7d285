PROPERTY = 'C31'
NEEDS = 'a module three or more levels deep is imported'
BREAKS = 'The parts of a dotted module name are all looked up in the top level package.'
EDITS = [('server.py', "                    result = getattr(result, part)\n", "                    result = getattr(mod, part)\n")]
DEMO = '''
from teleprox import RPCServer
srv = RPCServer()
m = srv.process_action('import', {'module': 'xml.dom.minidom'}, 'auto', b'x')
import xml.dom.minidom
assert m is xml.dom.minidom
'''
