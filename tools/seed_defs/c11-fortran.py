PROPERTY = 'C11'
NEEDS = 'an array in Fortran order with at least two dimensions is sent'
BREAKS = 'The elements of a Fortran-ordered array arrive in the wrong places.'
EDITS = [('serializer.py', """            if not obj.flags['C_CONTIGUOUS']:
                obj = np.ascontiguousarray(obj)
            assert(obj.flags['C_CONTIGUOUS'])
""", """            if not obj.flags.forc:
                obj = np.ascontiguousarray(obj)
"""), ('serializer.py', "'data': obj.tobytes(),", "'data': obj.tobytes(order='A'),")]
DEMO = '''
import numpy as np
from teleprox.serializer import MsgpackSerializer, JsonSerializer
a = np.asfortranarray(np.arange(6).reshape(2, 3))
for ser in (MsgpackSerializer(), JsonSerializer()):
    b = ser.loads(ser.dumps(a, None, None), None, None)
    assert (a == b).all(), (a, b)
'''
