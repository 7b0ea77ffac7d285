PROPERTY = 'C32'
NEEDS = 'the exception that nobody catches is a KeyboardInterrupt'
BREAKS = 'An unhandled KeyboardInterrupt is not logged.'
EDITS = [('log/handler.py', """def _log_unhandled_exception(exc, val, tb):
    exc_str = traceback.format_stack()
""", """def _log_unhandled_exception(exc, val, tb):
    if issubclass(exc, KeyboardInterrupt):
        sys.__excepthook__(exc, val, tb)
        return
    exc_str = list(traceback.format_stack())
""")]
DEMO = '''
import logging, sys
from teleprox.log import log_exceptions
got = []
class H(logging.Handler):
    def emit(self, rec): got.append(rec)
logging.getLogger().addHandler(H())
log_exceptions()
try:
    raise KeyboardInterrupt()
except KeyboardInterrupt:
    sys.excepthook(*sys.exc_info())
assert got and got[0].levelno == logging.WARNING
'''
