"""Exception kinds and handler matching."""
import builtins

# extra (external) classes: name -> base
EXT = {
    'zmq.error.ZMQBaseError': 'Exception',
    'zmq.error.ZMQError': 'zmq.error.ZMQBaseError',
    'zmq.error.Again': 'zmq.error.ZMQError',
    'zmq.error.ContextTerminated': 'zmq.error.ZMQError',
    'json.JSONDecodeError': 'ValueError',
    'json.decoder.JSONDecodeError': 'ValueError',
    'subprocess.SubprocessError': 'Exception',
    'subprocess.TimeoutExpired': 'subprocess.SubprocessError',
    'subprocess.CalledProcessError': 'subprocess.SubprocessError',
    'queue.Empty': 'Exception',
    'queue.Full': 'Exception',
    'concurrent.futures.InvalidStateError': 'Exception',
    'concurrent.futures.CancelledError': 'Exception',
    'pickle.PickleError': 'Exception',
    'pickle.PicklingError': 'pickle.PickleError',
    'pickle.UnpicklingError': 'pickle.PickleError',
}
ALIAS = {
    'zmq.ZMQError': 'zmq.error.ZMQError',
    'zmq.Again': 'zmq.error.Again',
    'socket.timeout': 'TimeoutError',
    'socket.error': 'OSError',
    'IOError': 'OSError',
    'EnvironmentError': 'OSError',
    'concurrent.futures.TimeoutError': 'TimeoutError',
    'json.decoder.JSONDecodeError': 'json.JSONDecodeError',
    'builtins.Exception': 'Exception',
}


def canon(name):
    name = ALIAS.get(name, name)
    if name.startswith('builtins.'):
        name = name[9:]
    return ALIAS.get(name, name)


class Hierarchy:
    def __init__(self, project):
        self.p = project

    def bases(self, name):
        name = canon(name)
        if name in EXT:
            return [EXT[name]]
        if ':' in name:
            ci = self.p.classes.get(name)
            if ci is None:
                return ['Exception']
            out = []
            for b in ci.bases:
                out.append(b[1] if b[0] in ('cls', 'ext') else 'Exception')
            return out or ['object']
        c = getattr(builtins, name, None)
        if isinstance(c, type):
            return [b.__name__ for b in c.__bases__]
        return ['Exception'] if name not in ('object', 'BaseException') else []

    def issub(self, a, b):
        a, b = canon(a), canon(b)
        if a == b:
            return True
        seen = set()
        stack = [a]
        while stack:
            x = canon(stack.pop())
            if x == b:
                return True
            if x in seen or x == 'object':
                continue
            seen.add(x)
            stack.extend(self.bases(x))
        return False

    def match(self, kind, star, excl, handler):
        """Does an exception of this kind match handler class?  'yes' / 'no' / 'maybe'."""
        if self.issub(kind, handler):
            return 'yes'
        if star and self.issub(handler, kind):
            if any(self.issub(handler, e) for e in excl):
                return 'no'
            return 'maybe'
        return 'no'
