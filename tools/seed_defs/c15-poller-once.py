PROPERTY = 'C15'
NEEDS = "while a thread waits, its server is closed and replaced (by a request that it serves meanwhile)"
BREAKS = 'What to listen to is determined only once per wait, so that a server that the thread gets while it waits is not served until the end of the wait.'
EDITS = [('client.py', """        start = time.perf_counter()
        while not future.done():
""", """        start = time.perf_counter()
        poller = self._get_poller()
        while not future.done():
"""), ('client.py', """            poller = self._get_poller()
            if poller is None:
""", """            if poller is None:
""")]
DEMO = '''
import threading, time
from teleprox import RPCServer
from teleprox.client import RPCClient
far = RPCServer(); far.run_in_thread()
near = RPCServer(); near.run_lazy()
new = []
def swap():
    near.process_action('close', None, None, None)
    new.append(RPCServer())
    new[0].run_lazy()
near['swap'] = swap
errors = []
def other():
    try:
        c = RPCClient(near.address)
        c['swap'](_sync='off')
        while not new: time.sleep(0.02)
        assert RPCClient(new[0].address).ping() == 'pong'
    except BaseException as exc:
        errors.append(exc)
c = RPCClient(far.address)
th = threading.Thread(target=other, daemon=True); th.start()
c._import('time').sleep(4)
th.join(0.1)
assert not errors and not th.is_alive(), errors
'''
