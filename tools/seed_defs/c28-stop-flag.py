PROPERTY = 'C28'
NEEDS = 'the polling thread is asked to stop while messages that the Qt thread sent before are still waiting'
BREAKS = 'The polling thread stops at once; replies that were handed to it before it was asked to stop are lost.'
EDITS = [('qt_poll_thread.py', "        while True:\n", "        while not self.stopping:\n"),
         ('qt_poll_thread.py', "        self.server = server\n", "        self.server = server\n        self.stopping = False\n"),
         ('qt_poll_thread.py', "        self.server._socket.send_multipart([b'STOP', b''])", "        self.stopping = True")]
DEMO = '''
import os, time, zmq
from teleprox import qt
app = qt.QApplication([])
from teleprox.qt_server import QtRPCServer
srv = QtRPCServer(quit_on_close=False)
srv.run_forever()
s = zmq.Context.instance().socket(zmq.DEALER)
s.linger = 0
s.setsockopt(zmq.IDENTITY, b'me')
s.setsockopt(zmq.RCVTIMEO, 3000)
s.connect(srv.address)
s.send_multipart([b'0', b'ping', b'auto', b'json', b''])
end = time.time() + 10
while not s.poll(10) and time.time() < end:
    app.processEvents()
s.recv()
for i in range(200):
    srv._socket.send_multipart([b'me', b'%d' % i])
srv.poll_thread.stop()
try:
    for i in range(200):
        assert s.recv() == b'%d' % i
except zmq.Again:
    print('lost from', i)
    os._exit(1)
os._exit(0)
'''
