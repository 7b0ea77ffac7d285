PROPERTY = 'C25'
NEEDS = 'records of processes that were started at different times are displayed together'
BREAKS = 'Records are sorted by the time since their process started, not by the time of their creation.'
EDITS = [('log/handler.py', "key=lambda rec: rec.created)", "key=lambda rec: rec.relativeCreated)")]
DEMO = '''
import io, logging, time
from teleprox.log.handler import RPCLogHandler
out = io.StringIO()
h = RPCLogHandler(out)
t = time.time()
for name, age, rel in (('late', 0.01, 5.0), ('early', 0.02, 900.0)):
    rec = logging.makeLogRecord({'msg': name, 'created': t - age, 'relativeCreated': rel, 'thread': 1})
    h.emit(rec)
end = time.time() + 5
while out.getvalue().count('\\n') < 2 and time.time() < end:
    time.sleep(0.02)
v = out.getvalue()
assert v.index('early') < v.index('late'), v
'''
