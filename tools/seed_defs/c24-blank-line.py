PROPERTY = 'C24'
NEEDS = 'the child writes an empty line'
BREAKS = 'Capturing stops at the first empty line; all output after that is lost and the child blocks once the pipe is full.'
EDITS = [('log/stdio.py', "            if line == '':\n", "            if line.strip() == '':\n")]
DEMO = '''
import io
from teleprox.log.stdio import PipePoller
got = []
t = PipePoller(io.BytesIO(b'one\\n\\ntwo\\n'), got.append, '', 'x')
t.join(5)
assert got == ['one', '', 'two'], got
'''
