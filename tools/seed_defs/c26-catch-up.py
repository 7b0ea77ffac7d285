PROPERTY = 'C26'
NEEDS = 'one invocation of the callback takes longer than the interval'
BREAKS = 'Invocations that are late are made up for without keeping the interval.'
EDITS = [('timer.py', "                    self._last_call_time = time.perf_counter()\n", """                    if self._last_call_time is None:
                        self._last_call_time = time.perf_counter()
                    else:
                        self._last_call_time += self.interval
""")]
DEMO = '''
import time
from teleprox.timer import Timer
calls = []
def cb():
    calls.append(time.perf_counter())
    if len(calls) == 2:
        time.sleep(0.8)
t = Timer(cb, 0.2, limit=6, start=True)
time.sleep(3)
gaps = [b - a for a, b in zip(calls, calls[1:])]
assert len(gaps) == 5 and min(gaps) > 0.15, gaps
'''
