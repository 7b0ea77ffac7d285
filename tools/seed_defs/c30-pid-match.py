PROPERTY = 'C30'
NEEDS = 'the search string consists of digits that occur in the id of an unrelated process'
BREAKS = 'The search string is looked up in the process id, too, so that unrelated processes are found and killed.'
EDITS = [('util.py', "            if search in cmd:\n", "            if search in line:\n")]
DEMO = '''
import subprocess
from teleprox.util import find_procs
p = subprocess.Popen(['sleep', '60'])
try:
    assert p.pid not in [pid for pid, cmd in find_procs(str(p.pid))]
finally:
    p.kill(); p.wait()
'''
