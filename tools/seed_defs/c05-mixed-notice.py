PROPERTY = 'C05'
NEEDS = 'two clients using different serializers connected to one server when a third party closes it'
BREAKS = 'The disconnect notice is encoded once and reused, so clients using another serializer cannot read it.'
EDITS = [('server.py', "                if ser_type not in data:\n                    ser = self._serializers[ser_type]\n                    data[ser_type] = ser.dumps({'action': 'disconnect'}, server=None, serialize_types=None)\n                data_str = data[ser_type]\n",
 "                if not data:\n                    ser = self._serializers[ser_type]\n                    data['msg'] = ser.dumps({'action': 'disconnect'}, server=None, serialize_types=None)\n                data_str = data['msg']\n")]
DEMO = '''
import threading, time
from teleprox import RPCServer
from teleprox.client import RPCClient
srv = RPCServer(); srv.run_in_thread()
ready = []; go = threading.Event(); res = {}
def client(ser):
    c = RPCClient(srv.address, serializer=ser)
    c.ping()
    ready.append(ser); go.wait(10)
    t = time.time()
    try:
        while time.time() < t + 3 and not c.disconnected():
            time.sleep(0.05)
        res[ser] = c.disconnected()
    except BaseException as e:
        res[ser] = repr(e)
ts = []
for s in ('msgpack', 'json'):
    t = threading.Thread(target=client, args=(s,), daemon=True); t.start(); ts.append(t)
    while s not in ready: time.sleep(0.01)
c = RPCClient(srv.address)
c.close_server(sync='sync')
go.set()
for t in ts: t.join(10)
assert res == {'msgpack': True, 'json': True}, res
'''
