PROPERTY = 'C12'
NEEDS = 'an exception object is passed as an argument or returned as a result'
BREAKS = 'Exceptions are pickled and copied to the peer, although their type is not among those allowed.'
EDITS = [('serializer.py', "        if not isinstance(obj, self._serialize_types):\n", "        if not isinstance(obj, self._serialize_types) and not isinstance(obj, Exception):\n")]
DEMO = '''
from teleprox.serializer import MsgpackSerializer, JsonSerializer
for ser in (MsgpackSerializer(), JsonSerializer()):
    try:
        ser.dumps([ValueError('x')], None, None)
    except TypeError:
        pass
    else:
        raise AssertionError('copied')
'''
