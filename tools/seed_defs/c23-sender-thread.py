PROPERTY = 'C23'
NEEDS = 'the thread that logged the record was given a name by set_thread_name'
BREAKS = 'A forwarded record carries the name of the sending thread in place of the one that created it.'
EDITS = [('log/remote.py', "        rec['thread_name'] = thread_names.get(rec['thread'], rec['threadName'])\n", "        rec['thread_name'] = thread_names.get(threading.get_ident(), rec['threadName'])\n")]
DEMO = '''
import logging, time
from teleprox import log
from teleprox.log.remote import LogServer, LogSender, set_thread_name
got = []
class H(logging.Handler):
    def emit(self, rec): got.append(rec)
dst = logging.getLogger('dst'); dst.addHandler(H()); dst.setLevel(1); dst.propagate = False
srv = LogServer(dst)
src = logging.getLogger('src'); src.setLevel(1); src.propagate = False
snd = LogSender(srv.address, src)
set_thread_name('worker-of-mine')
src.warning('hello')
end = time.time() + 5
while not got and time.time() < end:
    time.sleep(0.02)
assert got[0].thread_name == 'worker-of-mine', got[0].thread_name
'''
