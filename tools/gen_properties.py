#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand: python3 tools/gen_properties.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


prop('C01', 'Every request gets exactly one reply, its own',
     """For every request a server receives, if the client asked for a response then exactly one response is sent,
     to that client, carrying that request's id and encoded with that client's serializer: the result if the operation
     succeeded, otherwise an error with the remote exception's type name and traceback (also when the result itself
     cannot be serialized). If the client asked for no response, none is sent.""",
     ['inputs', 'fault_sequences'], 'every request message (any action, any outcome of the operation, of decoding and of encoding)',
     'The tests call a few methods that succeed and two that fail; failures inside decoding, encoding and reply construction, and BaseExceptions such as SystemExit, are never driven.',
     ['teleprox/server.py', 'teleprox/qt_server.py'],
     [('request processing and reply construction', 'server.py RPCServer._process_one, _send_result, _send_error'),
      ('Qt variant', 'qt_server.py QtRPCServer')],
     observe=['frames written to the server socket'])

prop('C02', 'No request can stop a server',
     """No message that a client can send (wrong number of frames, unparsable request id, undecodable text, unknown
     serializer or action, undecodable payload, an operation that raises anything including SystemExit) makes a server
     stop serving: after it, the server goes on to read and process the next request. This holds for the exclusive loop, for lazy
     processing while a client waits, and for the Qt mode's polling thread.""",
     ['inputs', 'fault_sequences'], 'every sequence of well-formed and malformed messages from any number of clients',
     'No test sends a malformed message; the set of malformed messages is unbounded.',
     ['teleprox/server.py', 'teleprox/qt_poll_thread.py', 'teleprox/client.py'],
     [('exclusive loop', 'server.py RPCServer.run_forever'), ('lazy processing', 'server.py RPCServer._read_and_process_one'),
      ('Qt poll loop', 'qt_poll_thread.py QtPollThread.run')])

prop('C03', 'A response resolves its own request, exactly once',
     """Within one client every request that expects a response has an id never used before by that client, and its future is
     known to the client under that id. A response resolves only the future with the same id, at most once, with the value it carries or with a
     RemoteCallException when it carries an error; a response whose id is unknown or whose future was abandoned is discarded
     without any effect on other requests.""",
     ['histories', 'schedules'], 'every interleaving of sync, async and no-reply requests, timeouts, abandoned futures and late responses',
     'The tests have at most two outstanding requests and never let an old response arrive late and then check other requests.',
     ['teleprox/client.py'],
     [('id allocation and future registration', 'client.py RPCClient.send'), ('response dispatch', 'client.py RPCClient.process_msg')],
     state=[('futures', 'pending requests by id', 'client.py RPCClient.futures'), ('next_request_id', 'id counter', 'client.py RPCClient')])

prop('C04', 'After a disconnect no request hangs',
     """Once a client learns that its server has closed (a disconnect notice, or its own close request confirmed), every request
     still pending fails with RuntimeError and every later request raises RuntimeError immediately without
     transmitting anything; the client stays disconnected for good. Asking a server that is known to be disconnected to close
     reports success without transmitting.""",
     ['histories', 'schedules'], 'every history of requests, notices and close requests of one client',
     'test_disconnect checks one request after a disconnect; pending requests at the time of the notice are not tested.',
     ['teleprox/client.py'],
     [('notice and close confirmation', 'client.py RPCClient.process_msg, _server_disconnected, _close_request_returned'),
      ('refusal', 'client.py RPCClient.send')],
     state=[('disconnected flag', 'server known closed', 'client.py RPCClient._disconnected')])

prop('C05', 'Closing a server informs every client and ends service',
     """When a server processes a close request, every other client that has ever sent it a valid request is sent a disconnect notice encoded
     with that client's own serializer, the requester is sent the confirmation True, the server is removed from the registry of its thread, its loop ends, and
     later requests are not executed. The server's connection is released only after the notices and the confirmation have been handed to it.""",
     ['histories', 'configurations'], 'every set of known clients and serializers, every requester, exclusive, lazy and Qt modes',
     'test_disconnect uses one or two msgpack clients; mixed serializers, a client with a bad serializer name, and requests after the close are not tested.',
     ['teleprox/server.py', 'teleprox/qt_server.py', 'teleprox/qt_poll_thread.py'],
     [('close action', "server.py RPCServer.process_action 'close'"), ('final release', 'server.py/_qt_server.py _final_close')],
     state=[('known clients', 'client id to serializer name', 'server.py RPCServer._clients')])

prop('C06', 'A proxied object lives exactly as long as its references',
     """From the moment a proxy is handed out, the server keeps the object alive and reachable under the proxy's object id until every
     reference handed out for it has been released; all proxies of one live object carry the same object id, each carries its own
     reference id, and neither kind of id is ever reused. Releasing the last reference removes every trace of the object; releasing one reference never affects another;
     and a proxy derived from another (attribute or copy) never releases the reference it shares.""",
     ['histories', 'inputs'], 'every history of handing out, copying, dereferencing and releasing proxies',
     'test_rpc deletes a proxy of an object referenced once; shared references, reuse of memory addresses and dropped derived proxies are not tested.',
     ['teleprox/server.py', 'teleprox/proxy.py', 'teleprox/client.py'],
     [('hand out', 'server.py RPCServer.get_proxy, _get_object_id'), ('release', "server.py process_action 'delete'; client.py RPCClient.delete; proxy.py ObjectProxy.__del__"),
      ('look up', 'server.py RPCServer.unwrap_proxy')],
     state=[('references', 'object id to object and reference ids', 'server.py RPCServer._proxy_refs'), ('identity map', 'object to object id', 'server.py RPCServer._proxy_id_map')])

prop('C07', 'Local proxy equality is exact and agrees with hashing',
     """Two proxies are reported equal without asking the server only if they designate the same server, the same object and the same
     attribute path; proxies that are equal in this sense have equal hashes, and the hash of a proxy never changes and depends on nothing else.""",
     ['inputs'], 'every pair of proxies',
     'test_rpc compares two proxies of the same object only; proxies of different attributes of one object are never compared.',
     ['teleprox/proxy.py'], [('equality', 'proxy.py ObjectProxy.__eq__'), ('hash', 'proxy.py ObjectProxy.__hash__')])

prop('C08', 'An operator on a proxy is the same operator on the object',
     """Applying an operator to a proxy (arithmetic, bitwise, shift, in-place and reflected forms, comparison, item get and set, length, attribute
     assignment) invokes, on the remote object, the special method of that very operator with exactly the operands given, and gives back what it returns.
     The plain, reflected and in-place forms supported for an operator are all present.""",
     ['inputs', 'programs'], 'every operator and every operand',
     'Tests use ==, len and [] only; about fifty forwarding methods are never called.',
     ['teleprox/proxy.py'], [('special methods', 'proxy.py ObjectProxy.__add__ ... __rmod__')])

prop('C09', 'Handling a proxy locally never contacts the server',
     """Creating, hashing, printing (in the default safe mode), copying, serializing proxies, testing proxies of the same object for equality, and looking up
     attributes in the default deferred mode, never send a request; a chain of attribute lookups is recorded in order and
     resolved in that order, on the object itself, when the result is used.""",
     ['programs', 'inputs'], 'every attribute chain and every local operation on a proxy',
     'Whether a request is sent is invisible to the tests, which only look at results.',
     ['teleprox/proxy.py', 'teleprox/server.py'],
     [('deferred lookup', 'proxy.py ObjectProxy.__getattr__, _deferred_attr'), ('resolution', 'server.py RPCServer.unwrap_proxy'), ('copy', 'proxy.py ObjectProxy._copy')])

prop('C10', 'A transferred proxy keeps its identity and unwraps at its owner',
     """A proxy sent through any serializer or pickled arrives with the same server address, object id, reference id, type string and attribute path.
     If the receiving thread's server owns the object, the receiver gets the object itself with the pending attribute lookups applied; otherwise it
     gets a proxy with the receiver's default proxy options.""",
     ['inputs', 'configurations'], 'every proxy, serializer and receiving thread',
     'Proxies are transferred in one topology; the attribute path of a transferred proxy and non-default options are not checked.',
     ['teleprox/serializer.py', 'teleprox/proxy.py', 'teleprox/server.py'],
     [('state out', 'proxy.py ObjectProxy.__getstate__; serializer.py Serializer.encode'), ('state in', 'proxy.py __setstate__, _init_state; serializer.py Serializer.decode')])

prop('C11', 'What a serializer encodes, the same serializer decodes back',
     """For each serializer and each type it declares serializable, whatever it writes for a value it also knows how to read back, with inverse
     operations and matching field names, into a value of the same type and content (the JSON serializer may turn tuples and numpy scalar subclasses of
     Python numbers into plain lists and numbers); dates and times keep their microseconds and UTC offset, arrays their dtype and shape. A dict with any
     hashable serializable keys can be read back by the default serializer.""",
     ['inputs', 'configurations'], 'every serializer, every declared type (structured and datetime arrays, complex scalars, aware datetimes included)',
     'test_serializer round-trips one value of nine types; structured arrays, numpy scalars, aware datetimes, int-keyed dicts, tuples are not covered.',
     ['teleprox/serializer.py'], [('writers', 'serializer.py Serializer.encode, JsonSerializer.encode'), ('readers', 'serializer.py Serializer.decode, JsonSerializer.decode')])

prop('C12', 'Values outside the allowed types go by proxy or are refused',
     """A value whose type is not among the types allowed for serialization is never copied to the peer: it is sent as a proxy owned by the sending thread's server, or,
     if there is none, encoding raises TypeError. This holds identically for each serializer, for types the user excluded as well as unknown ones (the serializer's
     native types excepted), and a result requested as a proxy is always sent as a proxy.""",
     ['inputs', 'configurations'], 'every value, allowed-type list, serializer and presence of a server',
     'One custom class without server is tested with msgpack only.',
     ['teleprox/serializer.py', 'teleprox/server.py', 'teleprox/client.py'],
     [('decision', 'serializer.py Serializer.encode, JsonSerializer.encode; server.py RPCServer.auto_proxy, _process_one')])

prop('C13', 'A proxy call forwards its arguments and honours its call options',
     """The positional and keyword arguments of a call on a proxy reach the remote callable complete and unchanged; only the three reserved options (sync, return type, timeout) are
     removed, and each overrides the proxy's default for that call. In 'sync' mode the call returns the value or raises, in 'async' mode it returns a future at once, in 'off' mode it returns
     None and asks for no reply; any other mode is rejected before anything is transmitted.""",
     ['inputs', 'programs'], 'every argument list and every combination of default and per-call options',
     'The combinations of per-call and default options, missing arguments and invalid modes are not tested.',
     ['teleprox/proxy.py', 'teleprox/client.py', 'teleprox/server.py'],
     [('option handling', 'proxy.py ObjectProxy.__call__'), ('modes', 'client.py RPCClient.send'), ('invocation', "server.py process_action 'call_obj'")])

prop('C14', 'Waits with a timeout end on time, with TimeoutError',
     """Waiting for a response with a timeout ends with TimeoutError once the timeout has elapsed and not before (up to one polling slice), in each waiting mode (plain, alongside a local server,
     alongside a Qt loop); a wait without timeout ends only with the response. A response that has arrived is returned rather than timed out, and connecting to an address where no server answers
     fails in bounded time.""",
     ['schedules', 'fault_sequences'], 'every timeout value, waiting mode and stream of unrelated messages arriving while waiting',
     'Two timeouts on one waiting mode are tested; a stream of unrelated messages that keeps a wait alive is not.',
     ['teleprox/client.py'], [('wait loop', 'client.py RPCClient.process_until_future, _read_and_process_one, ensure_connection')])

prop('C15', 'A waiting client keeps serving its own thread\'s server',
     """While a re-entrant client waits for a response and its thread has a server, incoming requests of that server are processed, whether the server runs a plain loop, is lazy, or is a Qt server,
     so that calls between servers may nest to any depth without deadlock. Which server to serve is determined from the waiting thread, also when the server is created after the client, or closed.""",
     ['schedules', 'histories', 'configurations'], 'every nesting of calls between servers and every order of creating clients and servers',
     'One nesting of two plain servers is tested.',
     ['teleprox/client.py'], [('poller selection and wait loop', 'client.py RPCClient._get_poller, process_until_future')])

prop('C16', 'One server per thread, one client per thread and address',
     """At any time a thread has at most one registered server and at most one client per server address: registering a second server or constructing a second client for the same pair raises KeyError and changes nothing. Lookup returns the
     instance registered by the calling thread, and every access to either registry is made under its lock. A client whose construction fails leaves no trace in the registry and no open connection, and closing a client removes it, and only it, from the registry.""",
     ['schedules', 'histories', 'fault_sequences'], 'every interleaving of threads creating, looking up and closing clients and servers, and every failing construction',
     'Only one duplicate client construction is tested; races and failed constructions are not.',
     ['teleprox/client.py', 'teleprox/server.py'],
     [('client registry', 'client.py RPCClient.get_client, forget_client, __init__, close'), ('server registry', 'server.py RPCServer.register_server, unregister_server, get_server')],
     state=[('clients_by_thread', 'client registry', 'client.py'), ('servers_by_thread', 'server registry', 'server.py')])

prop('C17', 'Every client connection has an identity of its own',
     """The identity by which a client makes itself known to servers differs from that of every other client ever connected to the same server, also between processes that were given the same name,
     hosts, threads and successive clients of one thread, so that a server never mistakes or drops one client for another.""",
     ['configurations', 'histories'], 'every set of processes and threads, whatever names the user assigned to them',
     'All test processes have different names.',
     ['teleprox/client.py'], [('identity', 'client.py RPCClient.__init__')])

prop('C18', 'Starting a process either succeeds or leaves nothing behind',
     """Starting a process either returns a handle whose client is connected to the new process, or raises; if it raises after the process was launched (no report in time, reported failure, refused or failed connection, unsupported serializer), the launched process, and the one that reported itself, has been killed. In every case the temporary reporting socket is closed, and every wait for the child during startup is bounded.""",
     ['fault_sequences', 'configurations'], 'every failure at any step of startup',
     'No test makes startup fail.',
     ['teleprox/process.py'], [('startup', 'process.py start_process')])

prop('C19', 'A child reports its server or its error, and gets its options',
     """A spawned child in which the library can be imported always reports to its parent either the address and pid of its running server or the traceback of the error that prevented it; the parent raises an error containing that traceback. Every startup option that
     the parent accepts (name, address, Qt, daemon, log address and level as str, bytes or number, name prefix) is passed to the child under the name the child reads, and takes effect there.""",
     ['configurations', 'fault_sequences'], 'every combination of options and every failure to create the server',
     'Few options are tested, failures of the child are not.',
     ['teleprox/process.py', 'teleprox/bootstrap.py'], [('launcher', 'process.py start_process'), ('child', 'bootstrap.py')])

prop('C20', 'A daemon child is fully detached from its parent',
     """A process started as a daemon, on POSIX, runs in a session of its own, is not its session's leader nor a child of the launching process, and has none of the launcher's standard streams open; it creates no thread or connection before it is detached. Its launcher never stops it
     implicitly: no exit hook, destructor or handle of the launcher ends it unless asked to.""",
     ['configurations', 'histories'], 'every daemon start and every way the launcher ends',
     'test_daemon checks survival of one orderly parent exit and stdout only.',
     ['teleprox/bootstrap.py', 'teleprox/process.py'], [('double fork', 'bootstrap.py'), ('handle', 'process.py DaemonProcess')])

prop('C21', 'A child process is stopped with its parent and always reaped',
     """Every non-daemon child is asked to stop when its parent exits normally. Stopping asks the child's server to close, waits for the process to exit and returns its exit code; killing ends it and reaps it; both do nothing on a process that has already exited.
     Waiting returns the exit code or raises TimeoutError after the timeout, with no other outcome.""",
     ['histories', 'fault_sequences'], 'every order of stop, kill, wait, and exit of parent and child',
     'Some orders are tested with a cooperative child.',
     ['teleprox/process.py'], [('handle', 'process.py ChildProcess')])

prop('C22', 'Nothing the library creates can keep a process from exiting',
     """Every network socket the library creates has a finite linger time before it can be used, and every thread it starts is a daemon thread, so that neither undelivered messages nor background work keep the process alive at exit.""",
     ['programs', 'fault_sequences'], 'every socket and thread created anywhere in the library',
     'Tests exit normally with all peers alive.',
     ['teleprox/client.py', 'teleprox/server.py', 'teleprox/process.py', 'teleprox/bootstrap.py', 'teleprox/qt_poll_thread.py', 'teleprox/timer.py', 'teleprox/log/remote.py', 'teleprox/log/handler.py', 'teleprox/log/stdio.py'],
     [('socket creation', 'all zmq.Context.instance().socket(...)'), ('thread creation', 'all threading.Thread')])

prop('C23', 'Log records reach the log server intact, whatever they contain',
     """A record handled by a log sender is forwarded to the address it was last connected to, with its level, logger name, fully formatted message, exception text and originating host, process and thread names, under the field names the receiving side reads. No record, whatever
     its arguments, exception information or extra attributes, and no malformed message, ends the sender's or the server's background thread; records below the server logger's level are dropped when filtering is on and all others handled.""",
     ['inputs', 'fault_sequences'], 'every log record and every message on the log socket',
     'The logging tests are not in the stable suite; records with exc_info or failing formatting are not tested.',
     ['teleprox/log/remote.py', 'teleprox/log/handler.py'], [('sender', 'log/remote.py LogSender'), ('server', 'log/remote.py LogServer'), ('display', 'log/handler.py RPCLogHandler')])

prop('C24', 'Captured output of a child is complete and loses no bytes',
     """With output capturing on, every line the child writes to stdout or stderr becomes, subject to the logger's level, exactly one log record (INFO for stdout, WARNING for stderr) with the line's full text, also for undecodable bytes and for a last line without newline;
     capturing ends only at end of file. While capturing, nothing else reads the child's pipes.""",
     ['inputs', 'schedules'], 'every byte sequence written by the child, and every timing of its exit',
     'Tests capture two short ASCII lines.',
     ['teleprox/log/stdio.py', 'teleprox/process.py'], [('pipe reader', 'log/stdio.py PipePoller, StdioLogSender'), ('waiting', 'process.py ChildProcess.wait')])

prop('C25', 'The display log handler loses no record and keeps time order',
     """Every record given to the sorting display handler is written out exactly once: records are kept sorted by creation time, taken out oldest first once they are older than the holding delay, and what remains at exit is flushed. All threads
     access the pending records under one lock, and a record's header names the host, process and thread that created it.""",
     ['schedules', 'inputs'], 'every set of threads and servers emitting records',
     'The handler is not tested.',
     ['teleprox/log/handler.py'], [('queue', 'log/handler.py RPCLogHandler.emit, poll_records, flush_records, get_thread_header')])

prop('C26', 'A timer respects its interval, limit and stop',
     """A started timer invokes its callback in its own thread, never earlier than the interval after the previous invocation began, never more often than its limit since it was last started, and not once the timer thread has seen it stopped; starting a running timer starts no second thread, and a timer that
     has stopped or reached its limit can be started again. State shared with the timer thread is accessed under its lock, and a proxy callback is used through a copy of the timer thread's own.""",
     ['schedules', 'histories'], 'every interleaving of start, stop and ticks',
     'The timer is not tested.',
     ['teleprox/timer.py', 'teleprox/server.py'], [('timer thread', 'timer.py Timer._run, start, stop')])

prop('C27', 'A shared array is the same array at both ends, freed by its owner only',
     """A shared array created by shape is zero-filled and sized for its shape and type, one created by copy holds the array's contents, and one so created that is sent arrives attached to the same memory with the same shape, type and
     layout. Closing all shared arrays (also at exit) closes and unlinks those created with the close flag, and no memory that is merely attached.""",
     ['inputs', 'histories'], 'every shape, dtype and process that attaches',
     'Shared arrays are not tested.',
     ['teleprox/shmem.py'], [('array', 'shmem.py SharedNDArray, close_all')])

prop('C28', 'A Qt server executes requests only in the Qt thread',
     """A Qt server's polling thread never executes a request itself: it only moves messages, unmodified and all of them, between the network socket and the Qt thread, and each request is processed in the Qt thread. The network socket is used by the polling thread only, and the
     polling thread ends, releasing its sockets, when asked to stop.""",
     ['schedules'], 'every interleaving of requests, replies and stop',
     'The Qt test creates one widget.',
     ['teleprox/qt_poll_thread.py', 'teleprox/qt_server.py'], [('poll loop', 'qt_poll_thread.py QtPollThread')])

prop('C29', 'Importing the library never imports Qt',
     """Importing the library or any module of its core, and using it without Qt features, never imports a Qt binding; when the application has already imported a binding, that one is used and requesting a different one is refused; otherwise bindings are tried in the order PyQt6, PySide6, PyQt5, PySide2, and an ImportError is raised
     when none is available.""",
     ['configurations', 'programs'], 'every import order and every set of installed bindings',
     'Only PyQt5 is installed; one import path is tested.',
     ['teleprox/qt_util.py', 'teleprox/serializer.py', 'teleprox/__init__.py', 'teleprox/qt_server.py', 'teleprox/client.py'], [('lazy import', 'qt_util.py import_qt, check_qt_imported')])

prop('C30', 'Process clean-up only touches the processes asked for',
     """On Linux, with assertions enabled, the clean-up helpers signal only processes whose command line contains the search string they were given, respectively exactly the process ids they were given, and never every process because the string is empty; whatever they find alive is reported to the
     caller.""",
     ['inputs', 'configurations'], 'every search string and process table',
     'Tests call the helper with one prefix.',
     ['teleprox/util.py'], [('helpers', 'util.py find_procs, kill_procs, assert_pids_dead, ProcessCleaner')])

prop('C31', 'Client and server agree on every request',
     """Every action a client can issue is implemented by the server, which finds each option it needs in what the client sends (whether or not optional arguments were given), and does for it what the client's operation promises: publishing and fetching by name, importing a module including dotted names,
     transferring, returning and deleting objects, ping. An unknown action is answered with an error.""",
     ['inputs', 'programs'], 'every client operation with every combination of optional arguments',
     'Calls that leave optional arguments out are not tested.',
     ['teleprox/client.py', 'teleprox/server.py'], [('senders', 'client.py RPCClient.call_obj ... ping'), ('dispatch', 'server.py RPCServer.process_action')])

prop('C32', 'Unhandled exceptions are logged from every thread',
     """After exception logging has been installed, an exception that nobody catches, in the main thread or in any other, and a failing request for which no reply was asked, produces a warning record on the root logger with the exception's traceback. Installing it again has no effect. It is installed in every process the library starts, before the server there exists, and by the basic logging configuration unless that is told not to.""",
     ['schedules', 'inputs'], 'every thread and exception',
     'The logging tests are not in the stable suite.',
     ['teleprox/log/handler.py', 'teleprox/server.py', 'teleprox/bootstrap.py'], [('hooks', 'log/handler.py log_exceptions'), ('no-reply failure', 'server.py RPCServer._process_one')])

prop('N01', 'Measured clock offset is accurate',
     'The measured offset between local and remote clocks differs from the true offset by at most half a round trip.',
     ['schedules'], 'every latency pattern', 'Depends on real network timing.', ['teleprox/client.py'], [('measurement', 'client.py RPCClient.measure_clock_diff')])
prop('N02', 'Requests of one client are executed in the order sent',
     'Requests from one client to one server are executed in the order in which they were sent, and none is lost or duplicated while the connection lasts.',
     ['schedules', 'fault_sequences'], 'every network behaviour', 'Depends on the transport.', ['teleprox/client.py', 'teleprox/server.py'], [('transport', 'zmq DEALER/ROUTER')])
prop('N03', 'Array contents survive transfer bit for bit',
     'Every element of a transferred array, including NaN payloads, is bit-identical at the receiver.',
     ['inputs'], 'every array value', 'Value-level statement over numpy, msgpack and base64.', ['teleprox/serializer.py'], [('array encoding', 'serializer.py')])
prop('N04', 'The TCP port probe tells open, closed and filtered apart',
     'The probe made before connecting reports open exactly when something accepts connections at the address.',
     ['configurations', 'fault_sequences'], 'every network', 'Depends on the operating system and network.', ['teleprox/util.py'], [('probe', 'util.py check_tcp_port')])
prop('N05', 'A daemon survives the death of its launcher\'s terminal',
     'Closing the terminal or killing the process group of the launcher never ends a daemon.',
     ['fault_sequences'], 'every signal and terminal event', 'The only test for it is skipped as not working.', ['teleprox/bootstrap.py'], [('detachment', 'bootstrap.py')])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
