PROPERTY = 'C09'
NEEDS = 'an attribute proxy is printed in the default mode'
BREAKS = 'Printing an attribute proxy asks the server for the representation of the attribute.'
EDITS = [('proxy.py', "        if self._proxy_options['safe_print'] is True:\n            orep", "        if self._proxy_options['safe_print'] is True and not self._attributes:\n            orep")]
DEMO = '''
from teleprox.proxy import ObjectProxy
class P(ObjectProxy):
    def _client(self):
        raise AssertionError('server contacted')
p = P(b'tcp://127.0.0.1:5001', 3, 1, 't', ('a', 'b'))
repr(p)
'''
