"""Edits used to exercise the checks.  name: (properties, [(file, old, new)...])"""
MUTANTS = {}
REFACTORINGS = {}
M = MUTANTS
R = REFACTORINGS
M['c01-noreply-none'] = (['C01'], [('server.py', "        if req_id >= 0:\n            if exc is None:", "        if req_id > 0:\n            if exc is None:")])
M['c01-wrong-ser'] = (['C01'], [('server.py', "self._serializers[self._clients.get(caller, 'json')]", "self._serializers['msgpack']")])
M['c01-double'] = (['C01'], [('server.py', "                    self._send_result(caller, req_id, rval=result)\n                except:", "                    self._send_result(caller, req_id, rval=result)\n                    if return_type == 'proxy':\n                        self._send_result(caller, req_id, rval=result)\n                except:")])
M['c01-swallow'] = (['C01'], [('server.py', "fnargs[1:])\n                    raise", "fnargs[1:])\n                    result = None")])
M['c01-except-exception'] = (['C01', 'C02'], [('server.py', "            exc = None\n        except:", "            exc = None\n        except Exception:")])
M['c01-senderr-none'] = (['C01'], [('server.py', "                    logger.warning(\"    => Failed to send result for %d\", req_id) \n                    exc = sys.exc_info()\n                    self._send_error(caller, req_id, exc)", "                    logger.warning(\"    => Failed to send result for %d\", req_id) \n                    exc = sys.exc_info()")])
M['c02-loop-break'] = (['C02'], [('server.py', "            name, msg = self._read_one(self._socket)\n            if msg is not None:\n                self._process_one(name, msg)\n\n    def run_in", "            name, msg = self._read_one(self._socket)\n            if msg is None:\n                break\n            self._process_one(name, msg)\n\n    def run_in")])
M['c02-parse'] = (['C02'], [('server.py', "        except ValueError:\n            logger.warning(\"RPC ign", "        except UnicodeDecodeError:\n            logger.warning(\"RPC ign")])
M['c02-callerdecode'] = (['C02'], [('server.py', "logger.info(\"RPC send result to %s [rpc_id=%s]\", caller.decode(errors='replace')", "logger.info(\"RPC send result to %s [rpc_id=%s]\", caller.decode()")])
# ---- client
M['c03-reuse'] = (['C03'], [('client.py', "            self.next_request_id += 1\n", "            self.next_request_id = (self.next_request_id + 1) % 65536\n")])
M['c03-inc-late'] = (['C03'], [('client.py', "            self.next_request_id += 1\n", ""), ('client.py', "        if sync == 'off':\n            return\n", "        if sync == 'off':\n            return\n        if sync == 'async':\n            self.next_request_id += 1\n")])
M['c03-late-reg'] = (['C03'], [('client.py', "        self.futures[req_id] = fut\n        \n        if sync == 'async':\n            return fut\n        else:\n            return fut.result(timeout=timeout)", "        if sync == 'async':\n            self.futures[req_id] = fut\n            return fut\n        else:\n            return fut.result(timeout=timeout)")])
M['c03-get'] = (['C03'], [('client.py', "self.futures.pop(req_id, None)", "self.futures.get(req_id, None)")])
M['c03-truthy-err'] = (['C03'], [('client.py', "            if msg['error'] is not None:\n                exc = RemoteCallException(*msg['error'])\n                fut.set_exception(exc)\n            else:\n                fut.set_result(msg['rval'])", "            if msg['rval'] is None and msg['error'] is not None:\n                exc = RemoteCallException(*msg['error'])\n                fut.set_exception(exc)\n            else:\n                fut.set_result(msg['rval'])")])
M['c03-nodiscard'] = (['C03'], [('client.py', "            fut = self.futures.pop(req_id, None)\n            if fut is None:\n                return", "            fut = self.futures.pop(req_id)")])
M['c03-reset'] = (['C03'], [('client.py', "        self.futures.clear()\n", "        self.futures.clear()\n        self.next_request_id = 0\n")])
M['c04-nofail'] = (['C04'], [('client.py', "        for fut in self.futures.values():\n            fut.set_exception(exc)\n        self.futures.clear()", "        self.futures.clear()")])
M['c04-runtime'] = (['C04'], [('client.py', 'exc = RuntimeError("Cannot receive', 'exc = ConnectionError("Cannot receive')])
M['c04-unset'] = (['C04'], [('client.py', "        self._disconnected = True\n        logger.debug(\"Rec", "        logger.debug(\"Rec")])
M['c04-forget'] = (['C04'], [('client.py', "                    self.connect_established = True\n", "                    self.connect_established = True\n                    self._disconnected = False\n")])
M['c04-sendlate'] = (['C04'], [('client.py', "        if self._disconnected:\n            raise RuntimeError(\"Cannot send request; server has already disconnected.\")\n        \n", ""), ('client.py', "        if sync == 'off':\n            return\n", "        if sync == 'off':\n            return\n        if self._disconnected:\n            raise RuntimeError(\"Cannot send request; server has already disconnected.\")\n")])
M['c04-cb'] = (['C04'], [('client.py', "        if action == 'close':\n", "        if action == 'close' and sync == 'sync':\n")])
M['c04-partial'] = (['C04'], [('client.py', "        for fut in self.futures.values():\n            fut.set_exception(exc)\n", "        for fut in list(self.futures.values())[:-1]:\n            fut.set_exception(exc)\n")])
M['c04-closed-send'] = (['C04'], [('client.py', "        if self.disconnected():\n            return True\n", "")])
M['c04-off'] = (['C04'], [('client.py', "        if self._disconnected:\n            raise Run", "        if self._disconnected and sync != 'off':\n            raise Run")])

R['cli-send-helper'] = ([], [('client.py', "        if sync == 'off':\n            req_id = -1\n        else:\n            req_id = self.next_request_id\n            self.next_request_id += 1\n", "        req_id = -1 if sync == 'off' else self._new_request_id()\n"),
    ('client.py', "    def call_obj(self, obj, args=None", "    def _new_request_id(self):\n        rid = self.next_request_id\n        self.next_request_id = rid + 1\n        return rid\n\n    def call_obj(self, obj, args=None")])
R['cli-dispatch-helper'] = ([], [('client.py', "            req_id = msg['req_id']\n            fut = self.futures.pop(req_id, None)\n            if fut is None:\n                return\n            if msg['error'] is not None:\n                exc = RemoteCallException(*msg['error'])\n                fut.set_exception(exc)\n            else:\n                fut.set_result(msg['rval'])\n", "            self._handle_return(msg)\n"),
    ('client.py', "    def _close_request_returned", "    def _handle_return(self, response):\n        try:\n            future = self.futures.pop(response['req_id'])\n        except KeyError:\n            return\n        error = response['error']\n        if error is None:\n            future.set_result(response['rval'])\n            return\n        type_str, tb = error\n        future.set_exception(RemoteCallException(type_str, tb))\n\n    def _close_request_returned")])
R['cli-disc-loop'] = ([], [('client.py', "        for fut in self.futures.values():\n            fut.set_exception(exc)\n        self.futures.clear()", "        pending = list(self.futures.items())\n        self.futures.clear()\n        for rid, pending_future in pending:\n            pending_future.set_exception(exc)")])
R['cli-disc-while'] = ([], [('client.py', "        for fut in self.futures.values():\n            fut.set_exception(exc)\n        self.futures.clear()", "        while len(self.futures) > 0:\n            _, fut = self.futures.popitem()\n            fut.set_exception(exc)")])
R['cli-send-early'] = ([], [('client.py', "        if sync == 'async':\n            return fut\n        else:\n            return fut.result(timeout=timeout)", "        if sync != 'async':\n            return fut.result(timeout=timeout)\n        return fut")])
R['cli-iter-count'] = ([], [('client.py', "            req_id = self.next_request_id\n            self.next_request_id += 1\n", "            req_id = next(self._request_ids)\n"), ('client.py', "            self.next_request_id = 0\n", "            self._request_ids = itertools.count()\n"), ('client.py', "import uuid\n", "import uuid\nimport itertools\n")])
R['cli-close-cb-lambda'] = ([], [('client.py', "fut.add_done_callback(self._close_request_returned)", "fut.add_done_callback(lambda f: self._close_request_returned(f))")])
R['cli-tablename'] = ([], [('client.py', "            self.futures = weakref", "            self._pending = weakref"), ('client.py', "        self.futures[req_id] = fut", "        self._pending[req_id] = fut"), ('client.py', "self.futures.pop(req_id, None)", "self._pending.pop(req_id, None)"), ('client.py', "in self.futures.values():", "in self._pending.values():"), ('client.py', "self.futures.clear()", "self._pending.clear()")])
# ---- server
R['srv-reply-helper'] = ([], [('server.py', "                try:\n                    if return_type == 'auto':\n                        result = self.auto_proxy(result, self.serialize_types)\n                    elif return_type == 'proxy':\n                        result = self.get_proxy(result)\n\n                    self._send_result(caller, req_id, rval=result)\n                except:", "                try:\n                    self._send_result(caller, req_id, rval=self._prepare(result, return_type))\n                except:"),
    ('server.py', "    def _send_error(self", "    def _prepare(self, result, return_type):\n        if return_type == 'auto':\n            return self.auto_proxy(result, self.serialize_types)\n        if return_type == 'proxy':\n            return self.get_proxy(result)\n        return result\n\n    def _send_error(self")])
R['srv-close-helper'] = ([], [('server.py', "            self._closed = True\n            # Send a disconnect message to all known clients\n            data = {}\n            for client, ser_type in self._clients.items():\n                if client == caller:\n                    # We will send an actual return value to confirm closure\n                    # to the caller.\n                    continue\n                \n                # Select or generate the disconnect message that was serialized\n                # correctly for this client.\n                if ser_type not in data:\n                    ser = self._serializers[ser_type]\n                    data[ser_type] = ser.dumps({'action': 'disconnect'}, server=None, serialize_types=None)\n                data_str = data[ser_type]\n                \n                # Send disconnect message.\n                logger.debug(\"RPC server sending disconnect message to %r\", client)\n                self._socket.send_multipart([client, data_str])\n            RPCServer.unregister_server(self)\n            result = True", "            result = self._close(caller)"),
    ('server.py', "    def _atexit(self", "    def _close(self, caller):\n        self._closed = True\n        others = [(c, s) for c, s in self._clients.items() if c != caller]\n        for client, ser_type in others:\n            note = self._serializers[ser_type].dumps({'action': 'disconnect'}, server=None, serialize_types=None)\n            self._socket.send_multipart([client, note])\n        RPCServer.unregister_server(self)\n        return True\n\n    def _atexit(self")])
R['srv-dispatch-early'] = ([], [('server.py', "        elif action == 'ping':\n            result = 'pong'\n", "        elif action == 'ping':\n            return 'pong'\n")])
R['srv-send-reorder'] = ([], [('server.py', "        if req_id >= 0:\n            if exc is None:", "        wants_reply = not (req_id < 0)\n        if wants_reply:\n            if exc is None:")])
R['srv-loop-while'] = ([], [('server.py', "        while self.running():\n            name, msg = self._read_one(self._socket)\n            if msg is not None:\n                self._process_one(name, msg)\n", "        while True:\n            if not self.running():\n                break\n            name, msg = self._read_one(self._socket)\n            if msg is None:\n                continue\n            self._process_one(name, msg)\n")])
R['srv-excinfo'] = ([], [('server.py', "        except:\n            exc = sys.exc_info()\n\n", "        except BaseException as e:\n            exc = (type(e), e, e.__traceback__)\n\n")])
R['srv-readone'] = ([], [('server.py', "            name, req_id, action, return_type, ser_type, opts = parts\n\n            msg = {\n                'req_id': int(req_id), \n                'action': action.decode(), \n                'return_type': return_type.decode(),\n                'ser_type': ser_type.decode(),\n                'opts': opts,\n            }", "            name, req_id, action, return_type, ser_type, opts = parts\n            msg = dict(req_id=int(req_id), action=action.decode(), return_type=return_type.decode(), ser_type=ser_type.decode())\n            msg['opts'] = opts")])
M['c04-clear-first'] = (['C04'], [('client.py', "        for fut in self.futures.values():\n            fut.set_exception(exc)\n        self.futures.clear()", "        self.futures.clear()\n        for fut in self.futures.values():\n            fut.set_exception(exc)")])

M['c13-args1'] = (['C13'], [('server.py', "            if len(fnkwds) == 0:  ##", "            if len(fnkwds) <= 1:  ##")])
M['c13-timeout'] = (['C13'], [('proxy.py', "            'timeout': self._proxy_options['timeout'],\n        }", "            'timeout': self._proxy_options['timeout'] or 10,\n        }")])
M['c13-falsy'] = (['C13'], [('proxy.py', "            opts[k] = kwargs.pop('_'+k, opts[k])", "            opts[k] = kwargs.pop('_'+k, None) or opts[k]")])
M['c13-keep'] = (['C13'], [('proxy.py', "            opts[k] = kwargs.pop('_'+k, opts[k])", "            opts[k] = kwargs.get('_'+k, opts[k])")])
M['c13-strip'] = (['C13'], [('proxy.py', "        return self._client().call_obj(obj=self, args=args, kwargs=kwargs, **opts)", "        kwargs = {k: v for k, v in kwargs.items() if not k.startswith('_')}\n        return self._client().call_obj(obj=self, args=args, kwargs=kwargs, **opts)")])
M['c13-none-args'] = (['C13'], [('client.py', "        opts = {'obj': obj, 'args': args or (), 'kwargs': kwargs or {}} ", "        opts = {'obj': obj, 'args': args if any(args or ()) else (), 'kwargs': kwargs or {}} ")])
M['c13-async-off'] = (['C13'], [('client.py', "        if sync == 'async':\n            return fut", "        if sync != 'sync' or timeout == 0:\n            return fut")])
R['prx-call'] = ([], [('proxy.py', "        for k in opts:\n            opts[k] = kwargs.pop('_'+k, opts[k])\n        return self._client().call_obj(obj=self, args=args, kwargs=kwargs, **opts)", "        sync = kwargs.pop('_sync', opts['sync'])\n        return_type = kwargs.pop('_return_type', opts['return_type'])\n        timeout = kwargs.pop('_timeout', opts['timeout'])\n        client = self._client()\n        return client.call_obj(self, args, kwargs, sync=sync, return_type=return_type, timeout=timeout)")])
R['prx-call2'] = ([], [('proxy.py', "        for k in opts:\n            opts[k] = kwargs.pop('_'+k, opts[k])\n", "        for k in ('sync', 'return_type', 'timeout'):\n            key = '_' + k\n            if key in kwargs:\n                opts[k] = kwargs[key]\n                del kwargs[key]\n")])
R['prx-call3'] = ([], [('proxy.py', "        opts = {\n            'sync': self._proxy_options['sync'],\n            'return_type': self._proxy_options['return_type'],\n            'timeout': self._proxy_options['timeout'],\n        }\n        for k in opts:\n            opts[k] = kwargs.pop('_'+k, opts[k])\n", "        opts = self._call_options(kwargs)\n"), ('proxy.py', "    def __hash__(self):", "    def _call_options(self, kwargs):\n        return {k: kwargs.pop('_' + k) if '_' + k in kwargs else self._proxy_options[k] for k in ('sync', 'return_type', 'timeout')}\n\n    def __hash__(self):")])
R['prx-callobj'] = ([], [('client.py', "        opts = {'obj': obj, 'args': args or (), 'kwargs': kwargs or {}} ", "        if args is None:\n            args = ()\n        if kwargs is None:\n            kwargs = {}\n        opts = {'obj': obj, 'args': args, 'kwargs': kwargs}")])
R['srv-callobj'] = ([], [('server.py', "            if len(fnkwds) == 0:  ## need to do this because some functions do not allow keyword arguments.\n                try:\n                    result = obj(*fnargs)\n                except:\n                    logger.warning(\"Failed to call object %s: %d, %s\", obj, len(fnargs), fnargs[1:])\n                    raise\n            else:\n                result = obj(*fnargs, **fnkwds)\n", "            if fnkwds:\n                result = obj(*fnargs, **fnkwds)\n            else:\n                result = self._invoke(obj, fnargs)\n"), ('server.py', "    def _atexit(self", "    def _invoke(self, fn, fnargs):\n        try:\n            return fn(*fnargs)\n        except:\n            logger.warning('failed')\n            raise\n\n    def _atexit(self")])

M['c05-noticefirst'] = (['C05'], [('server.py', "            RPCServer.unregister_server(self)\n            result = True", "            result = True")])
M['c05-ser'] = (['C05'], [('server.py', "                if ser_type not in data:\n                    ser = self._serializers[ser_type]\n                    data[ser_type] =", "                if not data:\n                    ser = self._serializers[ser_type]\n                    data[ser_type] =")] )
M['c05-ser2'] = (['C05'], [('server.py', "                    ser = self._serializers[ser_type]\n                    data[ser_type] = ser.dumps({'action': 'disconnect'}", "                    ser = self._serializers['msgpack']\n                    data[ser_type] = ser.dumps({'action': 'disconnect'}")])
M['c05-return'] = (['C05'], [('server.py', "                if client == caller:\n                    # We will send an actual return value to confirm closure\n                    # to the caller.\n                    continue", "                if client == caller:\n                    break")])
M['c05-flag'] = (['C05'], [('server.py', "            self._closed = True\n            # Send a dis", "            # Send a dis")])
M['c05-skipsame'] = (['C05'], [('server.py', "                if client == caller:\n", "                if client == caller or ser_type == 'json':\n")])
M['c05-clientslate'] = (['C05'], [('server.py', "        if ser_type in self._serializers:\n            self._clients[caller] = ser_type\n", "        if ser_type in self._serializers and req_id >= 0:\n            self._clients[caller] = ser_type\n")])
M['c05-release'] = (['C05'], [('server.py', "            RPCServer.unregister_server(self)\n            result = True", "            RPCServer.unregister_server(self)\n            self._socket.close()\n            result = True")])
M['c05-ids'] = (['C05'], [('server.py', "            ids = opts", "            ids = opts")]) if 0 else (['C05'], [('server.py', "            self._closed = True\n            # Send a dis", "            self._closed = 'closing'\n            # Send a dis")])
M['c05-pop'] = (['C05'], [('server.py', "        serializer = self._serializers[self._clients.get(caller, 'json')]", "        serializer = self._serializers[self._clients.pop(caller, 'json') if error is not None else self._clients.get(caller, 'json')]")])
M['c05-result'] = (['C05'], [('server.py', "            RPCServer.unregister_server(self)\n            result = True", "            RPCServer.unregister_server(self)\n            result = None")])
M['c05-localclose'] = (['C05'], [('server.py', "            self.process_action('close', None, None, None)\n        else:\n            cli.close_server(sync='sync')", "            self._final_close()\n        else:\n            cli.close_server(sync='sync')")])

GP = "        rid = self._next_ref_id\n        self._next_ref_id += 1\n"
M['c06-len'] = (['C06'], [('server.py', GP, "        rid = len(self._proxy_refs)\n")])
M['c06-samref'] = (['C06'], [('server.py', GP, "        rid = self._next_ref_id\n")])
M['c06-leq'] = (['C06'], [('server.py', "            if len(proxy_ref[1]) == 0:", "            if len(proxy_ref[1]) <= 1:")])
M['c06-swap'] = (['C06'], [('server.py', "            proxy_ref[1].remove(opts['ref_id'])\n            if len(proxy_ref[1]) == 0:\n                del self._proxy_refs[opts['obj_id']]\n                del self._proxy_id_map[id(proxy_ref[0])]\n", "            if len(proxy_ref[1]) == 0:\n                del self._proxy_refs[opts['obj_id']]\n                del self._proxy_id_map[id(proxy_ref[0])]\n            proxy_ref[1].remove(opts['ref_id'])\n")])
M['c06-map'] = (['C06'], [('server.py', "                del self._proxy_id_map[id(proxy_ref[0])]\n", "")])
M['c06-replace'] = (['C06'], [('server.py', "        proxy_ref = self._proxy_refs.setdefault(oid, [obj, set()])\n        proxy_ref[1].add(rid)", "        self._proxy_refs[oid] = [obj, {rid}]")])
M['c06-weak'] = (['C06'], [('server.py', "self._proxy_refs.setdefault(oid, [obj, set()])", "self._proxy_refs.setdefault(oid, [repr(obj), set()])")])
M['c06-noref'] = (['C06'], [('server.py', "        proxy_ref[1].add(rid)", "        proxy_ref[1].add(oid)")])
M['c06-pop'] = (['C06'], [('server.py', "            proxy_ref[1].remove(opts['ref_id'])", "            proxy_ref[1].pop()")])
M['c06-parent'] = (['C06'], [('proxy.py', "        proxy.__dict__['_parent_proxy'] = self\n", "")])
M['c06-reset'] = (['C06'], [('server.py', "                del self._proxy_id_map[id(proxy_ref[0])]\n", "                del self._proxy_id_map[id(proxy_ref[0])]\n                if not self._proxy_refs:\n                    self._next_object_id = 0\n")])
M['c06-nomap'] = (['C06'], [('server.py', "            self._proxy_id_map[id(obj)] = oid\n", "            self._proxy_id_map[oid] = id(obj)\n")])
M['c06-type'] = (['C06'], [('server.py', "        oid = self._get_object_id(obj)\n", "        oid = self._get_object_id(type(obj))\n")])
M['c06-autodel'] = (['C06'], [('proxy.py', "        opts['auto_delete'] = False  # only the parent may release the reference\n", "")])
M['c06-autodel2'] = (['C06'], [('proxy.py', "        prox._set_proxy_options(auto_delete=False)\n", "")])
M['c06-clidel'] = (['C06'], [('client.py', "'ref_id': obj._ref_id", "'ref_id': obj._obj_id")])
R['c06-helper'] = ([], [('server.py', "        proxy_ref = self._proxy_refs.setdefault(oid, [obj, set()])\n        proxy_ref[1].add(rid)\n", "        self._add_reference(oid, obj, rid)\n"),
  ('server.py', "    def _get_object_id(self, obj):", "    def _add_reference(self, oid, obj, rid):\n        try:\n            entry = self._proxy_refs[oid]\n        except KeyError:\n            entry = self._proxy_refs[oid] = (obj, set())\n        entry[1].add(rid)\n\n    def _get_object_id(self, obj):")])
R['c06-if'] = ([], [('server.py', "        proxy_ref = self._proxy_refs.setdefault(oid, [obj, set()])\n        proxy_ref[1].add(rid)\n", "        if oid not in self._proxy_refs:\n            self._proxy_refs[oid] = [obj, {rid}]\n        else:\n            self._proxy_refs[oid][1].add(rid)\n")])
R['c06-del'] = ([], [('server.py', "            proxy_ref = self._proxy_refs[opts['obj_id']]\n            proxy_ref[1].remove(opts['ref_id'])\n            if len(proxy_ref[1]) == 0:\n                del self._proxy_refs[opts['obj_id']]\n                del self._proxy_id_map[id(proxy_ref[0])]\n            result = None", "            self._release(opts['obj_id'], opts['ref_id'])\n            result = None"),
  ('server.py', "    def _get_object_id(self, obj):", "    def _release(self, obj_id, ref_id):\n        obj, refs = self._proxy_refs[obj_id]\n        refs.remove(ref_id)\n        if not refs:\n            self._proxy_refs.pop(obj_id)\n            self._proxy_id_map.pop(id(obj))\n\n    def _get_object_id(self, obj):")])
R['c06-ids'] = ([], [('server.py', "        oid = self._proxy_id_map.get(id(obj), None)\n        if oid is None:\n            oid = self._next_object_id\n            self._next_object_id += 1\n            self._proxy_id_map[id(obj)] = oid\n        return oid\n", "        key = id(obj)\n        try:\n            return self._proxy_id_map[key]\n        except KeyError:\n            pass\n        self._next_object_id, new = self._next_object_id + 1, self._next_object_id\n        self._proxy_id_map[key] = new\n        return new\n")])
R['c06-count'] = ([], [('server.py', GP, "        rid = next(self._ref_ids)\n"), ('server.py', "        self._next_ref_id = 0  # uniquely", "        self._ref_ids = itertools.count()  # uniquely"), ('server.py', "import atexit\n", "import atexit\nimport itertools\n")])
R['c06-opts'] = ([], [('proxy.py', "        opts = self._proxy_options.copy()\n        opts['auto_delete'] = False  # only the parent may release the reference\n        opts.update(kwds)\n", "        opts = dict(self._proxy_options, auto_delete=False)\n        opts.update(kwds)\n")])

# ---- C07
EQ = '            args[0]._rpc_addr == self._rpc_addr and\n            args[0]._obj_id == self._obj_id and\n            args[0]._attributes == self._attributes):'
HS = "        if self._hash is None:\n            self.__dict__['_hash'] = hash((self._rpc_addr, self._obj_id, self._attributes))\n        return self._hash\n"
EQALL = '        if (isinstance(args[0], ObjectProxy) and \n            args[0]._rpc_addr == self._rpc_addr and\n            args[0]._obj_id == self._obj_id and\n            args[0]._attributes == self._attributes):\n            return True\n'
M['c07-noattr'] = (['C07'], [('proxy.py', EQ, EQ.replace(" and\n            args[0]._attributes == self._attributes", ""))])
M['c07-noaddr'] = (['C07'], [('proxy.py', EQ, EQ.replace("args[0]._rpc_addr == self._rpc_addr and\n            ", ""))])
M['c07-hash'] = (['C07'], [('proxy.py', EQ, "            hash(args[0]) == hash(self)):")])
M['c07-lenattr'] = (['C07'], [('proxy.py', EQ, EQ.replace("args[0]._attributes == self._attributes", "len(args[0]._attributes) == len(self._attributes)"))])
M['c07-refid'] = (['C07'], [('proxy.py', HS, HS.replace("self._obj_id, self", "self._obj_id, self._ref_id, self"))])
M['c07-idself'] = (['C07'], [('proxy.py', HS, "        return id(self)\n")])
M['c07-hashtype'] = (['C07'], [('proxy.py', HS, HS.replace("self._obj_id, self", "self._obj_id, self._proxy_options['timeout'], self"))])
M['c07-badcache'] = (['C07'], [('proxy.py', HS, HS.replace("        if self._hash is None:", "        if self._hash is None and self._attributes:"))])
M['c07-rebind'] = (['C07'], [('proxy.py', "        if len(self._attributes) == 0:\n            return self\n", "        if len(self._attributes) == 0:\n            return self\n        self.__dict__['_attributes'] = tuple(self._attributes)\n")])
M['c07-copyhash'] = (['C07'], [('proxy.py', "        proxy.__dict__['_parent_proxy'] = self\n", "        proxy.__dict__['_parent_proxy'] = self\n        proxy.__dict__['_hash'] = self._hash\n")])
R['c07-tuple'] = ([], [('proxy.py', EQ, "            (args[0]._rpc_addr, args[0]._obj_id, args[0]._attributes) == (self._rpc_addr, self._obj_id, self._attributes)):")])
R['c07-key'] = ([], [('proxy.py', EQ, "            args[0]._key() == self._key()):"), ('proxy.py', "hash((self._rpc_addr, self._obj_id, self._attributes))", "hash(self._key())"),
                     ('proxy.py', "    def __hash__(self):", "    def _key(self):\n        return (self._rpc_addr, self._obj_id, self._attributes)\n\n    def __hash__(self):")])
R['c07-nocache'] = ([], [('proxy.py', HS, "        return hash((self._rpc_addr, self._obj_id, self._attributes))\n")])
R['c07-hashlocal'] = ([], [('proxy.py', HS, "        h = self._hash\n        if h is None:\n            h = hash((self._rpc_addr, self._obj_id, self._attributes))\n            self.__dict__['_hash'] = h\n        return h\n")])
R['c07-eqnest'] = ([], [('proxy.py', EQALL, "        other = args[0]\n        if isinstance(other, ObjectProxy):\n            same_server = other._rpc_addr == self._rpc_addr\n            same_object = other._obj_id == self._obj_id\n            if same_server and same_object and self._attributes == other._attributes:\n                return True\n")])

# ---- C08
def op8(a, b):
    return "        return self._deferred_attr('__%s__')(*args)" % a, "        return self._deferred_attr('__%s__')(*args)" % b
for a, b in (('ror', 'rxor'), ('ge', 'gt'), ('rsub', 'sub'), ('ifloordiv', 'floordiv'), ('rtruediv', 'rdiv'), ('ilshift', 'irshift')):
    M['c08-' + a] = (['C08'], [('proxy.py',) + op8(a, b)])
M['c08-args0'] = (['C08'], [('proxy.py', "self._deferred_attr('__setitem__')(*args)", "self._deferred_attr('__setitem__')(*args[:1])")])
M['c08-pow'] = (['C08'], [('proxy.py', "    def __pow__(self, *args):\n        return self._deferred_attr('__pow__')(*args)", "    def __pow__(self, other):\n        return self._deferred_attr('__pow__')(other)")])
M['c08-noret'] = (['C08'], [('proxy.py', "        return self._deferred_attr('__mod__')(*args)", "        self._deferred_attr('__mod__')(*args)")])
M['c08-gone'] = (['C08'], [('proxy.py', "    def __imod__(self, *args):\n        return self._deferred_attr('__imod__')(*args)\n", "")])
M['c08-sync'] = (['C08'], [('proxy.py', "self._deferred_attr('__setattr__')(*args)", "self._deferred_attr('__setattr__')(*args, _sync='off')")])
M['c08-iadd'] = (['C08'], [('proxy.py', "self._deferred_attr('__iadd__')(*args)", "self._deferred_attr('__iadd__', sync='async')(*args)")])
M['c08-len'] = (['C08'], [('proxy.py', "        return self._deferred_attr('__len__')(*args)", "        return len(self._get_value())")])
M['c08-alias'] = (['C08'], [('proxy.py', "    def __rmod__(self, *args):\n        return self._deferred_attr('__rmod__')(*args)\n", "    __rmod__ = __mod__\n")])
M['c08-lt'] = (['C08'], [('proxy.py', "        return self._deferred_attr('__lt__')(*args)", "        if args[0] is self:\n            return False\n        return self._deferred_attr('__lt__')(*args)")])
M['c08-call'] = (['C08'], [('proxy.py', "        return self._deferred_attr('__or__')(*args)", "        if len(self._attributes) > 3:\n            return self._undefer()._deferred_attr('__or__')(args)\n        return self._deferred_attr('__or__')(*args)")])
NEOPS = "    def __ne__(self, *args):\n        return self._deferred_attr('__ne__')(*args)\n        \n"
LTOPS = "    def __lt__(self, *args):\n        return self._deferred_attr('__lt__')(*args)\n    \n"
FACT = "def _forward(name):\n    def op(self, *args):\n        return self._deferred_attr(name)(*args)\n    op.__name__ = name\n    return op\n\n\nclass ObjectProxy(object):"
R['c08-factory'] = ([], [('proxy.py', "class ObjectProxy(object):", FACT), ('proxy.py', NEOPS + LTOPS, "    __ne__ = _forward('__ne__')\n    __lt__ = _forward('__lt__')\n")])
TAIL = "    def __rmod__(self, *args):\n        return self._deferred_attr('__rmod__')(*args)\n"
R['c08-loop'] = ([], [('proxy.py', "class ObjectProxy(object):", FACT), ('proxy.py', NEOPS + LTOPS, ""), ('proxy.py', TAIL, TAIL + "\n\nfor _op in ('ne', 'lt'):\n    setattr(ObjectProxy, '__%s__' % _op, _forward('__%s__' % _op))\n")])
M['c08-late'] = (['C08'], [('proxy.py', NEOPS + LTOPS, ""), ('proxy.py', TAIL, TAIL + "\n\nfor _op in ('__ne__', '__lt__'):\n    setattr(ObjectProxy, _op, lambda self, *args: self._deferred_attr(_op)(*args))\n")])
R['c08-lambda'] = ([], [('proxy.py', NEOPS + LTOPS, ""), ('proxy.py', TAIL, TAIL + "\n\nfor _op in ('__ne__', '__lt__'):\n    setattr(ObjectProxy, _op, lambda self, *args, _op=_op: self._deferred_attr(_op)(*args))\n")])
R['c08-named'] = ([], [('proxy.py', "    def __getitem__(self, *args):\n        return self._deferred_attr('__getitem__')(*args)", "    def __getitem__(self, key):\n        method = self._deferred_attr('__getitem__')\n        return method(key)")])
R['c08-helper'] = ([], [('proxy.py',) + ("        return self._deferred_attr('__gt__')(*args)", "        return self._remote_op('__gt__', args)"), ('proxy.py', "    def __hash__(self):", "    def _remote_op(self, name, args):\n        return self._deferred_attr(name)(*args)\n\n    def __hash__(self):")])

# ---- C09
UW = "        for attr in proxy._attributes:\n            obj = getattr(obj, attr)\n"
M['c09-rev'] = (['C09'], [('server.py', UW, UW.replace("proxy._attributes", "reversed(proxy._attributes)"))])
M['c09-first4'] = (['C09'], [('server.py', UW, UW.replace("proxy._attributes", "proxy._attributes[:4]"))])
M['c09-private'] = (['C09'], [('server.py', UW, UW.replace("            obj =", "            if attr.startswith('_abc'):\n                continue\n            obj ="))])
M['c09-default'] = (['C09'], [('server.py', UW, UW.replace("getattr(obj, attr)", "getattr(obj, attr, None)"))])
M['c09-root'] = (['C09'], [('server.py', UW, "        root = obj\n" + UW.replace("getattr(obj, attr)", "getattr(root, attr)"))])
M['c09-last'] = (['C09'], [('server.py', UW, "        if proxy._attributes:\n            obj = getattr(obj, proxy._attributes[-1])\n")])
M['c09-parenttruth'] = (['C09'], [('proxy.py', "        if self._parent_proxy is not None:", "        if self._parent_proxy:")])
M['c09-repr'] = (['C09'], [('proxy.py', "            orep = '.'.join((self._type_str,) + self._attributes)", "            orep = self._undefer()._type_str")])
M['c09-getstate'] = (['C09'], [('proxy.py', "        addr = self._rpc_addr\n        if isinstance", "        addr = self._client().address\n        if isinstance")])
M['c09-copycl'] = (['C09'], [('proxy.py', "        # only the original proxy may release the reference\n", "        prox.__dict__['_client_'] = self._client()\n")])
M['c09-init'] = (['C09'], [('proxy.py', "        self._set_proxy_options(**kwds)\n\n    def _init", "        self._set_proxy_options(**kwds)\n        if kwds.get('auto_delete'):\n            self._client()\n\n    def _init")])
M['c09-order'] = (['C09'], [('proxy.py', "self._type_str, self._attributes + (attr,), **opts)", "self._type_str, (attr,) + self._attributes, **opts)")])
M['c09-private2'] = (['C09'], [('proxy.py', "        prox = self._deferred_attr(attr)\n", "        if attr.startswith('_'):\n            return self._deferred_attr(attr)._undefer()\n        prox = self._deferred_attr(attr)\n")])
M['c09-undefer'] = (['C09'], [('proxy.py', "        if len(self._attributes) == 0:\n            return self\n", "        if len(self._attributes) <= 1:\n            return self\n")])
M['c09-encode'] = (['C09'], [('serializer.py', "            ser = {encode_key: 'proxy'}\n", "            obj = obj._undefer()\n            ser = {encode_key: 'proxy'}\n")])
M['c09-eqnot'] = (['C09'], [('proxy.py', "        if (isinstance(args[0], ObjectProxy) and \n", "        if (isinstance(args[0], ObjectProxy) and self._attributes and\n")])
M['c09-safestr'] = (['C09'], [('proxy.py', "        if self._proxy_options['safe_print'] is True:\n            return repr(self)", "        if self._proxy_options['safe_print'] is True and not args:\n            return '<%s>' % self._deferred_attr('__str__')(_return_type='value')")])
R['c09-reduce'] = ([], [('server.py', UW, "        obj = functools.reduce(getattr, proxy._attributes, obj)\n"), ('server.py', "import atexit\n", "import atexit\nimport functools\n")])
R['c09-recur'] = ([], [('server.py', UW, "        for i in range(len(proxy._attributes)):\n            obj = getattr(obj, proxy._attributes[i])\n")])
R['c09-resolve'] = ([], [('server.py', "        for attr in proxy._attributes:\n            obj = getattr(obj, attr)\n        #logger.debug(\"server %s unwrap proxy %d: %s\", self.address, oid, obj)\n        return obj\n", "        return self._resolve(obj, proxy._attributes)\n\n    def _resolve(self, value, names):\n        for name in names:\n            value = getattr(value, name)\n        return value\n")])
R['c09-getattr'] = ([], [('proxy.py', "        if self._proxy_options['defer_getattr'] is True:\n            return prox\n        else:\n            return prox._undefer()\n", "        if self._proxy_options['defer_getattr'] is not True:\n            return prox._undefer()\n        return prox\n")])
R['c09-repr'] = ([], [('proxy.py', "            orep = '.'.join((self._type_str,) + self._attributes)", "            orep = self._type_str\n            for name in self._attributes:\n                orep = orep + '.' + name")])
R['c09-copy'] = ([], [('proxy.py', "        if self._parent_proxy is not None:\n            prox.__dict__['_parent_proxy'] = self._parent_proxy._copy()\n        return prox", "        parent = self._parent_proxy\n        if parent is not None:\n            parent = parent._copy()\n        prox.__dict__['_parent_proxy'] = parent\n        return prox")])

# ---- C11
M['c11-timespec'] = (['C11'], [('serializer.py', "            return {encode_key: 'datetime',\n                    'data': obj.isoformat()}", "            return {encode_key: 'datetime',\n                    'data': obj.isoformat(timespec='milliseconds')}")])
M['c11-strftime'] = (['C11'], [('serializer.py', "            return {encode_key: 'datetime',\n                    'data': obj.isoformat()}", "            return {encode_key: 'datetime',\n                    'data': obj.strftime('%Y-%m-%dT%H:%M:%S.%f')}")])
M['c11-dateorder'] = (['C11'], [('serializer.py', "        elif isinstance(obj, datetime.datetime):\n            return {encode_key: 'datetime',\n                    'data': obj.isoformat()}\n        elif isinstance(obj, datetime.date):\n            return {encode_key: 'date',\n                    'data': obj.isoformat()}", "        elif isinstance(obj, datetime.date):\n            return {encode_key: 'date',\n                    'data': obj.isoformat()}\n        elif isinstance(obj, datetime.datetime):\n            return {encode_key: 'datetime',\n                    'data': obj.isoformat()}")])
M['c11-key'] = (['C11'], [('serializer.py', "                'value': val\n", "                'val': val\n")])
M['c11-strict'] = (['C11'], [('serializer.py', ", default=self.encode, strict_types=True)", ", default=self.encode)")])
M['c11-mapkey'] = (['C11'], [('serializer.py', "object_hook=self.decode, strict_map_key=False)", "object_hook=self.decode)")])
M['c11-longdouble'] = (['C11'], [('serializer.py', "(np.complexfloating, np.timedelta64, np.longdouble)", "(np.complexfloating, np.timedelta64)")])
M['c11-complex'] = (['C11'], [('serializer.py', "(np.complexfloating, np.timedelta64, np.longdouble)):", "(np.timedelta64, np.longdouble)):"), ('serializer.py', "                val = float(obj)\n", "                val = float(obj)\n            elif isinstance(obj, np.complexfloating):\n                val = abs(obj)\n")])
M['c11-contig'] = (['C11'], [('serializer.py', "            if not obj.flags['C_CONTIGUOUS']:\n                obj = np.ascontiguousarray(obj)\n            assert(obj.flags['C_CONTIGUOUS'])\n", "            obj = np.ascontiguousarray(obj)\n")])
M['c11-order'] = (['C11'], [('serializer.py', "'data': obj.tobytes(),", "'data': obj.tobytes('A'),"), ('serializer.py', "            if not obj.flags['C_CONTIGUOUS']:\n                obj = np.ascontiguousarray(obj)\n            assert(obj.flags['C_CONTIGUOUS'])\n", "")])
M['c11-dtname'] = (['C11'], [('serializer.py', "                    'dtype': str(obj.dtype),\n                    'shape'", "                    'dtype': obj.dtype.name,\n                    'shape'")])
M['c11-noexec'] = (['C11'], [('serializer.py', "                if dt.startswith(('[', '{')):", "                if dt.startswith('['):")])
M['c11-b64'] = (['C11'], [('serializer.py', "            elif type_name == 'bytes':\n                return base64.b64decode(dct['data'])", "            elif type_name == 'bytes':\n                return base64.urlsafe_b64decode(dct['data'])")])
M['c11-jsonnd'] = (['C11'], [('serializer.py', "        if dct[encode_key] == 'ndarray':\n            dct['data'] = base64.b64encode(dct['data']).decode()\n        elif", "        if")])
M['c11-nbool'] = (['C11'], [('serializer.py', "            if isinstance(obj, np.bool_):\n                val = bool(obj)\n            elif isinstance(obj, np.integer)", "            if isinstance(obj, np.integer)")])
M['c11-charset'] = (['C11'], [('serializer.py', "cls=self.EnhancedJSONEncoder).encode()", "cls=self.EnhancedJSONEncoder, ensure_ascii=False).encode('latin-1')")])
M['c11-npfloat'] = (['C11'], [('serializer.py', "                return np.dtype(dct['dtype']).type(dct['value'])", "                return np.float64(dct['value'])")])
M['c11-tuple'] = (['C11'], [('serializer.py', "            elif type_name == 'tuple':\n                return tuple(dct['data'])", "            elif type_name == 'tuple':\n                return dct['data']")])
M['c11-plainnone'] = (['C11'], [('serializer.py', "            type_name = dct.get(encode_key, None)\n", "            type_name = dct.get(encode_key, None)\n            if not dct:\n                return None\n")])
R['c11-item'] = ([], [('serializer.py', "                val = float(obj)\n", "                val = obj.item()\n")])
R['c11-table'] = ([], [('serializer.py', "            elif type_name == 'datetime':\n                return datetime.datetime.fromisoformat(dct['data'])\n            elif type_name == 'date':\n                return datetime.date.fromisoformat(dct['data'])\n", "            elif type_name in ('datetime', 'date'):\n                cls = {'datetime': datetime.datetime, 'date': datetime.date}[type_name]\n                return cls.fromisoformat(dct['data'])\n")])
R['c11-helper'] = ([], [('serializer.py', "            return {encode_key: 'ndarray',\n                    'data': obj.tobytes(),\n                    'dtype': str(obj.dtype),\n                    'shape': obj.shape}", "            return self._tagged('ndarray', data=obj.tobytes(), dtype=str(obj.dtype), shape=list(obj.shape))"), ('serializer.py', "    def decode(self, dct):\n        \"\"\"Convert from serial", "    @staticmethod\n    def _tagged(name, **fields):\n        fields[encode_key] = name\n        return fields\n\n    def decode(self, dct):\n        \"\"\"Convert from serial")])
R['c11-methods'] = ([], [('serializer.py', "            elif type_name == 'pickle':\n                return pickle.loads(dct['pickle_str'])\n", "            handler = getattr(self, '_decode_' + type_name, None)\n            if handler is not None:\n                return handler(dct)\n            elif type_name == 'pickle':\n                return self._read_pickle(dct)\n"), ('serializer.py', "    def decode(self, dct):\n        \"\"\"Convert from serial", "    def _decode_none(self, dct):\n        return None\n\n    def _read_pickle(self, dct):\n        data = dct['pickle_str']\n        return pickle.loads(data)\n\n    def decode(self, dct):\n        \"\"\"Convert from serial")])
R['c11-early'] = ([], [('serializer.py', "        if isinstance(dct, dict):\n            type_name = dct.pop(encode_key, None)\n            if type_name is None:\n                return dct\n            if", "        if not isinstance(dct, dict) or encode_key not in dct:\n            return dct\n        else:\n            type_name = dct.pop(encode_key)\n            if")])

# ---- C12
M['c12-pickle'] = (['C12'], [('serializer.py', "            if self.server is None:\n                raise TypeError(\"Cannot make proxy to %r without proxy server.\" % obj)\n            obj = self.server.get_proxy(obj)", "            if self.server is not None:\n                obj = self.server.get_proxy(obj)")])
M['c12-stale'] = (['C12'], [('serializer.py', "        self._server = server\n        self._serialize_types = serialize_types or default_serialize_types\n        return json", "        if server is not None:\n            self._server = server\n        self._serialize_types = serialize_types or default_serialize_types\n        return json")])
M['c12-bytes'] = (['C12'], [('serializer.py', "isinstance(obj, bytes) and isinstance(obj, self._serialize_types)", "isinstance(obj, bytes)")])
M['c12-default'] = (['C12'], [('serializer.py', "serialize_types or default_serialize_types\n        return msgpack", "default_serialize_types\n        return msgpack")])
M['c12-server'] = (['C12'], [('server.py', "data = serializer.dumps(result, server=self, serialize_types=self.serialize_types)", "data = serializer.dumps(result, server=self, serialize_types=None)")])
M['c12-client'] = (['C12'], [('client.py', "self.serializer.dumps(opts, server=None, serialize_types=self.serialize_types)", "self.serializer.dumps(opts, server=self._local_server, serialize_types=self.serialize_types)")])
M['c12-proxyres'] = (['C12'], [('server.py', "                        result = self.get_proxy(result)", "                        result = result if isinstance(result, (type(None), bool)) else self.get_proxy(result)")])
M['c12-nptype'] = (['C12'], [('serializer.py', "        if not isinstance(obj, self._serialize_types):\n", "        if not isinstance(obj, self._serialize_types) and not isinstance(obj, datetime.date):\n")])
M['c12-err'] = (['C12'], [('serializer.py', "                raise TypeError(\"Cannot make proxy to %r without proxy server.\" % obj)", "                raise ValueError(\"Cannot make proxy to %r without proxy server.\" % obj)")])
M['c12-repr'] = (['C12'], [('serializer.py', "            obj = self.server.get_proxy(obj)\n", "            proxy = self.server.get_proxy(obj)\n            if not hasattr(obj, '__call__'):\n                return {encode_key: 'pickle', 'pickle_str': pickle.dumps(obj)}\n            obj = proxy\n")])
M['c12-getserver'] = (['C12'], [('serializer.py', "            self._server = RPCServer.get_server()\n", "            self._server = RPCServer()\n")])
R['c12-split'] = ([], [('serializer.py', "        if not isinstance(obj, self._serialize_types):\n            # If this object type is not in server.no_proxy_types, then send by proxy.\n            if self.server is None:\n                raise TypeError(\"Cannot make proxy to %r without proxy server.\" % obj)\n            obj = self.server.get_proxy(obj)\n", "        if not self._allowed(obj):\n            obj = self._as_proxy(obj)\n"), ('serializer.py', "    def decode(self, dct):\n        \"\"\"Convert from serial", "    def _allowed(self, obj):\n        return isinstance(obj, self._serialize_types)\n\n    def _as_proxy(self, obj):\n        server = self.server\n        if server is None:\n            raise TypeError(\"Cannot make proxy to %r without proxy server.\" % obj)\n        return server.get_proxy(obj)\n\n    def decode(self, dct):\n        \"\"\"Convert from serial")])
R['c12-prepare'] = ([], [('serializer.py', "        self._server = server\n        self._serialize_types = serialize_types or default_serialize_types\n        return msgpack", "        self._prepare(server, serialize_types)\n        return msgpack"), ('serializer.py', "        self._server = server\n        self._serialize_types = serialize_types or default_serialize_types\n        return json", "        self._prepare(server, serialize_types)\n        return json"), ('serializer.py', "    def decode(self, dct):\n        \"\"\"Convert from serial", "    def _prepare(self, server, types):\n        self._server = server\n        if types:\n            self._serialize_types = types\n        else:\n            self._serialize_types = default_serialize_types\n\n    def decode(self, dct):\n        \"\"\"Convert from serial")])
R['c12-ptypes'] = ([], [('serializer.py', "        self._server = server\n        self._serialize_types = serialize_types or default_serialize_types\n        return json.dumps(obj, cls=self.EnhancedJSONEncoder).encode()", "        self._server = server\n        self._allowed_types = serialize_types or default_serialize_types\n        text = json.dumps(obj, cls=self.EnhancedJSONEncoder)\n        return text.encode('utf-8')"), ('serializer.py', "isinstance(obj, bytes) and isinstance(obj, self._serialize_types)", "isinstance(obj, bytes) and isinstance(obj, self._allowed_types)"), ('serializer.py', "        self._serialize_types = serialize_types or default_serialize_types\n        return msgpack", "        self._allowed_types = serialize_types or default_serialize_types\n        return msgpack"), ('serializer.py', "        if not isinstance(obj, self._serialize_types):\n", "        if not isinstance(obj, self._allowed_types):\n"), ('serializer.py', "        self._server = None\n        self._serialize_types = default", "        self._server = None\n        self._allowed_types = default")])
R['c12-rtype'] = ([], [('server.py', "                    if return_type == 'auto':\n                        result = self.auto_proxy(result, self.serialize_types)\n                    elif return_type == 'proxy':\n                        result = self.get_proxy(result)\n", "                    result = self._prepare_result(result, return_type)\n"), ('server.py', "    def _send_error(self, caller, req_id, exc):", "    def _prepare_result(self, result, return_type):\n        if return_type == 'proxy':\n            return self.get_proxy(result)\n        if return_type == 'auto':\n            return self.auto_proxy(result, self.serialize_types)\n        return result\n\n    def _send_error(self, caller, req_id, exc):")])

# ---- C10
M['c10-typestr'] = (['C10'], [('proxy.py', "            'type_str': self._type_str,\n", "            'type_str': self._type_str[:64],\n")])
M['c10-attrs'] = (['C10'], [('proxy.py', "            'attributes': self._attributes,\n", "            'attributes': self._attributes[:8],\n")])
M['c10-list'] = (['C10'], [('serializer.py', "                if 'attributes' in dct:\n                    dct['attributes'] = tuple(dct['attributes'])\n", "")])
M['c10-swap'] = (['C10'], [('serializer.py', "                if self.server is not None and proxy._rpc_addr == self.server.address:\n", "                if self.server is not None and proxy._rpc_addr.split(b':')[-1] == self.server.address.split(b':')[-1]:\n")])
M['c10-opts'] = (['C10'], [('serializer.py', "                if self._proxy_opts is not None:\n                    proxy._set_proxy_options(**self._proxy_opts)\n                if self.server", "                if self.server"), ('serializer.py', "                else:\n                    return proxy\n        return dct", "                else:\n                    if self._proxy_opts is not None and not proxy._attributes:\n                        proxy._set_proxy_options(**self._proxy_opts)\n                    return proxy\n        return dct")])
M['c10-noserver'] = (['C10'], [('serializer.py', "                if self.server is not None and proxy", "                if self._server is not None and proxy")])
M['c10-clientopts'] = (['C10'], [('client.py', "proxy_opts=self.default_proxy_options)", "proxy_opts=None)")])
M['c10-clientsrv'] = (['C10'], [('client.py', "msg = self.serializer.loads(msg, server=None,", "msg = self.serializer.loads(msg, server=self._local_server,")])
M['c10-jsonsrv'] = (['C10'], [('serializer.py', "        self._server = server\n        self._proxy_opts = proxy_opts\n        return json", "        self._proxy_opts = proxy_opts\n        return json")])
M['c10-srvread'] = (['C10'], [('server.py', "opts = serializer.loads(opts, server=self, proxy_opts={})", "opts = serializer.loads(opts, server=None, proxy_opts={})")])
M['c10-refid'] = (['C10'], [('proxy.py', "            'ref_id': self._ref_id,\n", "            'ref_id': self._ref_id if not self._attributes else 0,\n")])
M['c10-setstate'] = (['C10'], [('proxy.py', "    def __setstate__(self, state):\n", "    def __setstate__(self, state):\n        state = dict(state, attributes=())\n")])
M['c10-addr'] = (['C10'], [('proxy.py', "addr = addr.decode()", "addr = addr.decode().lower()")])
M['c10-unwrapall'] = (['C10'], [('serializer.py', "                if self.server is not None and proxy._rpc_addr == self.server.address:\n                    return self.server.unwrap_proxy(proxy)", "                if self.server is not None and proxy._rpc_addr == self.server.address and not proxy._attributes:\n                    return self.server.unwrap_proxy(proxy)")])
R['c10-owner'] = ([], [('serializer.py', "                if self.server is not None and proxy._rpc_addr == self.server.address:\n                    return self.server.unwrap_proxy(proxy)\n                else:\n                    return proxy\n", "                return self._resolve(proxy)\n"), ('serializer.py', "    def decode(self, dct):\n        \"\"\"Convert from serial", "    def _resolve(self, proxy):\n        server = self.server\n        if server is None or server.address != proxy._rpc_addr:\n            return proxy\n        return server.unwrap_proxy(proxy)\n\n    def decode(self, dct):\n        \"\"\"Convert from serial")])
R['c10-opts'] = ([], [('serializer.py', "                proxy = ObjectProxy(**dct)\n                if self._proxy_opts is not None:\n                    proxy._set_proxy_options(**self._proxy_opts)\n", "                opts = self._proxy_opts\n                proxy = ObjectProxy(**dct)\n                if opts:\n                    proxy._set_proxy_options(**opts)\n")])
R['c10-ctor'] = ([], [('serializer.py', "                proxy = ObjectProxy(**dct)\n", "                proxy = ObjectProxy(dct['rpc_addr'], dct['obj_id'], dct['ref_id'], type_str=dct['type_str'],\n                                    attributes=dct['attributes'])\n")])
R['c10-state'] = ([], [('serializer.py', "            ser = {encode_key: 'proxy'}\n            ser.update(obj.__getstate__())\n            return ser\n", "            return dict(obj.__getstate__(), **{encode_key: 'proxy'})\n")])
R['c10-reduce'] = ([], [('proxy.py', "    def __getstate__(self):", "    def __reduce__(self):\n        state = self.__getstate__()\n        return (ObjectProxy, (state['rpc_addr'], state['obj_id'], state['ref_id'], state['type_str'], state['attributes']))\n\n    def __getstate__(self):")])

# ---- C22
M['c22-client'] = (['C22'], [('client.py', "            self._socket.linger = 1000\n", "")])
M['c22-inf'] = (['C22'], [('log/remote.py', "        socket.linger = 1000  # don't", "        socket.linger = -1  # don't")])
M['c22-poll2'] = (['C22'], [('qt_poll_thread.py', "        server._socket.linger = 1000  # don't let socket deadlock when exiting\n", "")])
M['c22-boot'] = (['C22'], [('bootstrap.py', "    bootstrap_sock.linger = 1000\n", "")])
M['c22-thread'] = (['C22'], [('server.py', "threading.Thread(target=self.run_forever, daemon=True)", "threading.Thread(target=self.run_forever)")])
M['c22-timer'] = (['C22'], [('timer.py', "threading.Thread(target=self._run, daemon=True)", "threading.Thread(target=self._run, daemon=False)")])
M['c22-sub'] = (['C22'], [('log/stdio.py', "threading.Thread.__init__(self, daemon=True)", "threading.Thread.__init__(self)")])
M['c22-cond'] = (['C22'], [('log/remote.py', "        socket.linger = 1000  # don't", "        if addr.startswith(b'tcp://127'):\n            socket.linger = 1000  # don't")])
M['c22-late'] = (['C22'], [('client.py', "            self._socket.linger = 1000\n", ""), ('client.py', "            self.ensure_connection()\n", "            self.ensure_connection()\n            self._socket.linger = 1000\n")])
M['c22-close'] = (['C22'], [('server.py', "        # Called after the server has closed and sent its disconnect messages.\n", "        self._socket.linger = -1\n")])
R['c22-helper'] = ([], [('log/remote.py', "        socket = zmq.Context.instance().socket(zmq.PUSH)\n        socket.linger = 1000  # don't let socket deadlock when exiting\n", "        socket = _make_socket(zmq.PUSH)\n"), ('log/remote.py', "        self.socket = zmq.Context.instance().socket(zmq.PULL)\n        self.socket.linger = 1000  # don't let socket deadlock when exiting\n", "        self.socket = _make_socket(zmq.PULL)\n"), ('log/remote.py', "class LogSender(", "def _make_socket(kind, linger=1000):\n    sock = zmq.Context.instance().socket(kind)\n    sock.setsockopt(zmq.LINGER, linger)\n    return sock\n\n\nclass LogSender(")])
R['c22-helper2'] = ([], [('log/remote.py', "        socket = zmq.Context.instance().socket(zmq.PUSH)\n", "        socket = _raw_socket(zmq.PUSH)\n"), ('log/remote.py', "class LogSender(", "def _raw_socket(kind):\n    return zmq.Context.instance().socket(kind)\n\n\nclass LogSender(")])
R['c22-super'] = ([], [('log/stdio.py', "threading.Thread.__init__(self, daemon=True)", "super().__init__(daemon=True)")])
R['c22-attr'] = ([], [('server.py', "        self._run_thread = threading.Thread(target=self.run_forever, daemon=True)\n", "        thread = threading.Thread(target=self.run_forever)\n        thread.daemon = True\n        self._run_thread = thread\n")])
# ---- C16
M['c16-nolock-get'] = (['C16'], [('client.py', "        with RPCClient.clients_by_thread_lock:\n            if key in RPCClient.clients_by_thread:\n                return RPCClient.clients_by_thread[key]\n", "        if key in RPCClient.clients_by_thread:\n            return RPCClient.clients_by_thread[key]\n")])
M['c16-split'] = (['C16'], [('client.py', "Use RPCClient.get_client(address) instead.\")\n            RPCClient", "Use RPCClient.get_client(address) instead.\")\n        with RPCClient.clients_by_thread_lock:\n            RPCClient")])
M['c16-nokeyerr'] = (['C16'], [('client.py', "                raise KeyError(\"An RPCClient instance already exists for this address.\"\n                    \" Use RPCClient.get_client(address) instead.\")\n", "                logger.warning('replacing client')\n")])
M['c16-strkey'] = (['C16'], [('client.py', "        if isinstance(address, str):\n            address = address.encode()\n        key =", "        key =")])
M['c16-leak-entry'] = (['C16'], [('client.py', "        except:\n            RPCClient.forget_client(self)\n", "        except:\n")])
M['c16-leak-exc'] = (['C16'], [('client.py', "        except:\n            RPCClient.forget_client(self)\n", "        except (OSError, ValueError):\n            RPCClient.forget_client(self)\n")])
M['c16-leak-sock'] = (['C16'], [('client.py', "            if self._socket is not None:\n                self._socket.close()\n            raise", "            raise")])
M['c16-leak-base'] = (['C16'], [('client.py', "        except:\n            RPCClient.forget_client(self)\n", "        except Exception:\n            RPCClient.forget_client(self)\n")])
M['c16-forget-any'] = (['C16'], [('client.py', "            if RPCClient.clients_by_thread.get(client._key, None) is client:\n                RPCClient.clients_by_thread.pop(client._key)", "            RPCClient.clients_by_thread.pop(client._key, None)")])
M['c16-forget-cur'] = (['C16'], [('client.py', "            if RPCClient.clients_by_thread.get(client._key, None) is client:\n                RPCClient.clients_by_thread.pop(client._key)", "            key = (threading.current_thread().ident, client.address)\n            if key in RPCClient.clients_by_thread:\n                RPCClient.clients_by_thread.pop(key)")])
M['c16-close-keep'] = (['C16'], [('client.py', "        self._socket.close()\n        RPCClient.forget_client(self)\n", "        self._socket.close()\n")])
M['c16-close-sock'] = (['C16'], [('client.py', "        self._socket.close()\n        RPCClient.forget_client(self)\n", "        RPCClient.forget_client(self)\n")])
M['c16-key-noaddr'] = (['C16'], [('client.py', "        key = (threading.current_thread().ident, address)\n        self._key", "        key = (threading.current_thread().name, address)\n        self._key")])
M['c16-srv-nocheck'] = (['C16'], [('server.py', "            if key in RPCServer.servers_by_thread:\n                raise KeyError(\"An RPCServer is already running in this thread.\")\n", "")])
M['c16-srv-nolock'] = (['C16'], [('server.py', "        with RPCServer.servers_by_thread_lock:\n            if key in RPCServer.servers_by_thread:\n                raise KeyError(\"An RPCServer is already running in this thread.\")\n            RPC", "        if key in RPCServer.servers_by_thread:\n            raise KeyError(\"An RPCServer is already running in this thread.\")\n        with RPCServer.servers_by_thread_lock:\n            RPC")])
M['c16-srv-early'] = (['C16'], [('server.py', "        with RPCServer.servers_by_thread_lock:\n            if key in RPCServer.servers_by_thread:\n", "        srv._thread = key\n        with RPCServer.servers_by_thread_lock:\n            if key in RPCServer.servers_by_thread:\n")])
M['c16-unreg-any'] = (['C16'], [('server.py', "            assert RPCServer.servers_by_thread[key] is srv\n            RPC", "            RPC")])
M['c16-unreg-cur'] = (['C16'], [('server.py', "        key = srv._thread\n        with", "        key = threading.current_thread().ident\n        with")])
M['c16-getserver'] = (['C16'], [('server.py', "        with RPCServer.servers_by_thread_lock:\n            return RPCServer.servers_by_thread.get(threading.current_thread().ident, None)", "        with RPCServer.servers_by_thread_lock:\n            return RPCServer.servers_by_thread.get(threading.main_thread().ident, None)")])
M['c16-getnew'] = (['C16'], [('client.py', "                return RPCClient.clients_by_thread[key]\n        \n        return RPCClient(address)", "                client = RPCClient.clients_by_thread[key]\n                if not client._disconnected:\n                    return client\n        return RPCClient(address)")])
R['c16-tryget'] = ([], [('client.py', "            if key in RPCClient.clients_by_thread:\n                return RPCClient.clients_by_thread[key]\n        \n        return RPCClient(address)", "            existing = RPCClient.clients_by_thread.get(key)\n        if existing is not None:\n            return existing\n        return RPCClient(address)")])
R['c16-keyhelper'] = ([], [('client.py', "        key = (threading.current_thread().ident, address)\n        \n", "        key = RPCClient._registry_key(address)\n        \n"), ('client.py', "        key = (threading.current_thread().ident, address)\n        self._key", "        key = RPCClient._registry_key(address)\n        self._key"), ('client.py', "    @staticmethod\n    def forget_client", "    @staticmethod\n    def _registry_key(addr):\n        return (threading.get_ident(), addr)\n\n    @staticmethod\n    def forget_client")])
R['c16-acquire'] = ([], [('server.py', "        key = srv._thread\n        with RPCServer.servers_by_thread_lock:\n            assert RPCServer.servers_by_thread[key] is srv\n            RPCServer.servers_by_thread.pop(key)", "        lock = RPCServer.servers_by_thread_lock\n        lock.acquire()\n        try:\n            assert RPCServer.servers_by_thread[srv._thread] is srv\n            del RPCServer.servers_by_thread[srv._thread]\n        finally:\n            lock.release()")])
R['c16-forget-try'] = ([], [('client.py', "            if RPCClient.clients_by_thread.get(client._key, None) is client:\n                RPCClient.clients_by_thread.pop(client._key)", "            registered = RPCClient.clients_by_thread.get(client._key)\n            if registered is not client:\n                return\n            del RPCClient.clients_by_thread[client._key]")])
R['c16-init-cleanup'] = ([], [('client.py', "        except:\n            RPCClient.forget_client(self)\n            if self._socket is not None:\n                self._socket.close()\n            raise", "        except BaseException:\n            self._abandon()\n            raise"), ('client.py', "    @staticmethod\n    def check_address", "    def _abandon(self):\n        if self._socket is not None:\n            self._socket.close()\n        RPCClient.forget_client(self)\n\n    @staticmethod\n    def check_address")])
R['c16-setdefault'] = ([], [('server.py', "            if key in RPCServer.servers_by_thread:\n                raise KeyError(\"An RPCServer is already running in this thread.\")\n            RPCServer.servers_by_thread[key] = srv\n", "            other = RPCServer.servers_by_thread.get(key)\n            if other is not None:\n                raise KeyError(\"An RPCServer is already running in this thread.\")\n            RPCServer.servers_by_thread[key] = srv\n")])
# ---- C17
M['c17-trunc'] = (['C17'], [('client.py', ".encode()[-255:]", ".encode()[:255]")])
M['c17-nouuid'] = (['C17'], [('client.py', "                                         uuid.uuid4().hex)).encode()", "                                         id(self))).encode()")])
M['c17-pid'] = (['C17'], [('client.py', "                                         uuid.uuid4().hex)).encode()", "                                         os.getpid())).encode()")])
M['c17-short'] = (['C17'], [('client.py', "uuid.uuid4().hex)).encode()", "uuid.uuid4().hex[:6])).encode()")])
M['c17-first'] = (['C17'], [('client.py', "        self.name = (\"%s.%s.%s:%s:%s\" % (log.get_host_name(), log.get_process_name(),\n                                         log.get_thread_name(), address.decode(),\n                                         uuid.uuid4().hex)).encode()[-255:]", "        self.name = (\"%s:%s.%s.%s:%s\" % (uuid.uuid4().hex, log.get_host_name(), log.get_process_name(),\n                                         log.get_thread_name(), address.decode())).encode()[-255:]")])
M['c17-late'] = (['C17'], [('client.py', "            self._socket.setsockopt(zmq.IDENTITY, self._sock_name)\n", ""), ('client.py', "            self._socket.connect(address)\n", "            self._socket.connect(address)\n            self._socket.setsockopt(zmq.IDENTITY, self._sock_name)\n")])
M['c17-classid'] = (['C17'], [('client.py', "    clients_by_thread = {}", "    session = uuid.uuid4().hex\n    clients_by_thread = {}"), ('client.py', "uuid.uuid4().hex)", "self.session)")])
M['c17-uuid5'] = (['C17'], [('client.py', "uuid.uuid4().hex)", "uuid.uuid5(uuid.NAMESPACE_URL, address.decode()).hex)")])
M['c17-cached'] = (['C17'], [('client.py', "uuid.uuid4().hex)", "_session_id())"), ('client.py', "class RPCClient", "@functools.lru_cache(None)\ndef _session_id():\n    return uuid.uuid4().hex\n\n\nclass RPCClient"), ('client.py', "import uuid\n", "import uuid\nimport functools\n")])
M['c17-cond'] = (['C17'], [('client.py', "            self._sock_name = self.name\n", "            self._sock_name = self.name if reentrant else self.name.rsplit(b':', 1)[0]\n")])
R['c17-fstring'] = ([], [('client.py', "        self.name = (\"%s.%s.%s:%s:%s\" % (log.get_host_name(), log.get_process_name(),\n                                         log.get_thread_name(), address.decode(),\n                                         uuid.uuid4().hex)).encode()[-255:]", "        unique = uuid.uuid4().hex\n        parts = (log.get_host_name(), log.get_process_name(), log.get_thread_name())\n        name = f\"{'.'.join(parts)}:{address.decode()}:{unique}\"\n        self.name = name.encode()[-255:]")])
R['c17-helper'] = ([], [('client.py', "        self.name = (\"%s.%s.%s:%s:%s\" % (log.get_host_name(), log.get_process_name(),\n                                         log.get_thread_name(), address.decode(),\n                                         uuid.uuid4().hex)).encode()[-255:]", "        self.name = self._make_name(address)"), ('client.py', "    @staticmethod\n    def check_address", "    @staticmethod\n    def _make_name(address):\n        prefix = log.get_host_name() + '.' + log.get_process_name() + '.' + log.get_thread_name()\n        full = prefix + ':' + address.decode() + ':' + str(uuid.uuid4())\n        return full.encode()[-255:]\n\n    @staticmethod\n    def check_address")])
R['c17-format'] = ([], [('client.py', "(\"%s.%s.%s:%s:%s\" % (log", "(\"{}.{}.{}:{}:{}\".format(log")])
R['c17-identity'] = ([], [('client.py', "            self._socket.setsockopt(zmq.IDENTITY, self._sock_name)\n", "            self._socket.identity = self._sock_name\n")])
# ---- C14
M['c14-ms'] = (['C14'], [('client.py', "            timeout = int(timeout * 1000)\n", "            timeout = int(timeout * 100)\n")])
M['c14-us'] = (['C14'], [('client.py', "            timeout = int(timeout * 1000)\n", "            timeout = int(timeout * 1e6)\n")])
M['c14-full'] = (['C14'], [('client.py', "                self._read_and_process_one(itimeout)\n            elif", "                self._read_and_process_one(timeout)\n            elif")])
M['c14-reset'] = (['C14'], [('client.py', "                if itimeout < 0:\n                    raise TimeoutError(\"Timeout waiting for Future result.\")\n", "                if itimeout < 0:\n                    raise TimeoutError(\"Timeout waiting for Future result.\")\n                start = time.perf_counter()\n")])
M['c14-nopoll'] = (['C14'], [('client.py', "poller.poll(itimeout)]", "poller.poll()]")])
M['c14-none'] = (['C14'], [('client.py', "            if timeout is None:\n                itimeout = None\n            else:\n                dt", "            if timeout is None:\n                timeout = 3600.\n            if True:\n                dt")])
M['c14-none1'] = (['C14'], [('client.py', "        if timeout is None:\n            timeout = -1\n", "        if timeout is None:\n            timeout = 60000\n")])
M['c14-qt'] = (['C14'], [('client.py', "                try:\n                    self._read_and_process_one(timeout=0.05)\n                except TimeoutError:\n                    pass\n", "                self._read_and_process_one(timeout=0.05)\n")])
M['c14-falsy'] = (['C14'], [('client.py', "            if timeout is None:\n                itimeout = None\n", "            if not timeout:\n                itimeout = None\n")])
M['c14-send'] = (['C14'], [('client.py', "            return fut.result(timeout=timeout)\n", "            return fut.result(timeout=timeout or 10.0)\n")])
M['c14-fut'] = (['C14'], [('client.py', "process_until_future(self, timeout=timeout)", "process_until_future(self, timeout=timeout or None)")])
M['c14-early'] = (['C14'], [('client.py', "                if itimeout < 0:", "                if itimeout < 0.1:")])
M['c14-conn'] = (['C14'], [('client.py', "            while time.time() < start + timeout:\n", "            while not self._disconnected:\n")])
M['c14-connwait'] = (['C14'], [('client.py', "result = fut.result(timeout=0.1)", "result = fut.result()")])
M['c14-probe'] = (['C14'], [('util.py', "        s.settimeout(timeout)\n", "")])
M['c14-done-late'] = (['C14'], [('client.py', "                    self._read_and_process_one(timeout=0)\n                elif len(socks) > 0: ", "                    self._read_and_process_one(timeout=0)\n                    if timeout is not None and time.perf_counter() - start > timeout:\n                        raise TimeoutError(\"Timeout waiting for Future result.\")\n                elif len(socks) > 0: ")])
M['c14-servsleep'] = (['C14'], [('client.py', "                        continue\n                    server._read", "                        time.sleep(5)\n                        continue\n                    server._read")])
R['c14-deadline'] = ([], [('client.py', "        start = time.perf_counter()\n        while not future.done():", "        deadline = None if timeout is None else time.perf_counter() + timeout\n        while not future.done():"), ('client.py', "            if timeout is None:\n                itimeout = None\n            else:\n                dt = time.perf_counter() - start\n                itimeout = timeout - dt\n                if itimeout < 0:", "            itimeout = None\n            if deadline is not None:\n                itimeout = deadline - time.perf_counter()\n                if itimeout < 0:")])
R['c14-remaining'] = ([], [('client.py', "            if timeout is None:\n                itimeout = None\n            else:\n                dt = time.perf_counter() - start\n                itimeout = timeout - dt\n                if itimeout < 0:\n                    raise TimeoutError(\"Timeout waiting for Future result.\")\n", "            itimeout = self._remaining(start, timeout)\n"), ('client.py', "    def _read_and_process_one(self, timeout)", "    @staticmethod\n    def _remaining(start, timeout):\n        if timeout is None:\n            return None\n        left = timeout - (time.perf_counter() - start)\n        if left < 0:\n            raise TimeoutError(\"Timeout waiting for Future result.\")\n        return left\n\n    def _read_and_process_one(self, timeout)")])
R['c14-whiletrue'] = ([], [('client.py', "        while not future.done():\n            # wait", "        while True:\n            if future.done():\n                break\n            # wait")])
R['c14-rcvhelper'] = ([], [('client.py', "            self._socket.setsockopt(zmq.RCVTIMEO, timeout)\n            msg = self._socket.recv()\n            msg = self.serializer", "            self._socket.setsockopt(zmq.RCVTIMEO, timeout)\n            data = self._socket.recv()\n            msg = self.serializer"), ('client.py', "        if timeout is None:\n            timeout = -1\n        else:\n            timeout = int(timeout * 1000)\n", "        timeout = -1 if timeout is None else int(1000 * timeout)\n"), ('client.py', "serializer.loads(msg, server=None", "serializer.loads(data, server=None")])
R['c14-modes'] = ([], [('client.py', "                socks = [x[0] for x in poller.poll(itimeout)]\n                if self._socket in socks:\n                    self._read_and_process_one(timeout=0)\n                elif len(socks) > 0: \n                    server = RPCServer.get_server()\n                    if server is None:\n                        # this can happen after server has unregistered itself \n                        # at exit\n                        continue\n                    server._read_and_process_one()", "                self._wait_both(poller, itimeout)"), ('client.py', "    def _read_and_process_one(self, timeout)", "    def _wait_both(self, poller, limit):\n        readable = [sock for sock, event in poller.poll(limit)]\n        if not readable:\n            return\n        if self._socket in readable:\n            self._read_and_process_one(timeout=0)\n            return\n        server = RPCServer.get_server()\n        if server is not None:\n            server._read_and_process_one()\n\n    def _read_and_process_one(self, timeout)")])
R['c14-conn'] = ([], [('client.py', "            start = time.time()\n            while time.time() < start + timeout:\n                fut = self.ping(sync='async')\n                try:\n                    result = fut.result(timeout=0.1)\n                    self.connect_established = True\n                    return\n                except TimeoutError:\n                    continue\n", "            deadline = time.time() + timeout\n            while True:\n                if time.time() >= deadline:\n                    break\n                fut = self.ping(sync='async')\n                try:\n                    fut.result(timeout=0.1)\n                except TimeoutError:\n                    continue\n                self.connect_established = True\n                return\n")])
# ---- C15
M['c15-stale'] = (['C15'], [('client.py', "        if self._poller is None or self._polled_server is not server:\n", "        if self._poller is None:\n")])
M['c15-noassoc'] = (['C15'], [('client.py', "            self._polled_server = server\n", "")])
M['c15-noserver'] = (['C15'], [('client.py', "            self._poller.register(server._socket, zmq.POLLIN)\n", "")])
M['c15-noclient'] = (['C15'], [('client.py', "            self._poller.register(self._socket, zmq.POLLIN)\n            self._poller.register(server", "            self._poller.register(server")])
M['c15-qtskip'] = (['C15'], [('client.py', "                QApplication.processEvents()\n", "")])
M['c15-qtlong'] = (['C15'], [('client.py', "                    self._read_and_process_one(timeout=0.05)\n", "                    self._read_and_process_one(timeout=itimeout)\n")])
M['c15-hoist'] = (['C15'], [('client.py', "            poller = self._get_poller()\n            if poller", "            if poller"), ('client.py', "        start = time.perf_counter()\n        while not future.done():", "        start = time.perf_counter()\n        poller = self._get_poller()\n        while not future.done():")])
M['c15-noserve'] = (['C15'], [('client.py', "                    server._read_and_process_one()\n", "                    logger.debug('request pending')\n")])
M['c15-nonreent'] = (['C15'], [('client.py', "            self._reentrant = reentrant\n", "            self._reentrant = reentrant and start_local_server\n")])
M['c15-getclient'] = (['C15'], [('client.py', "        return RPCClient(address)", "        return RPCClient(address, reentrant=False)")])
M['c15-once'] = (['C15'], [('client.py', "        server = RPCServer.get_server()\n        if server is None:\n            return None\n        if isinstance", "        if self._poller is not None:\n            return self._poller\n        server = RPCServer.get_server()\n        if server is None:\n            return None\n        if isinstance")])
M['c15-qtorder'] = (['C15'], [('client.py', "        if isinstance(server, QtRPCServer):\n            return 'qt'\n", "")])
M['c15-localonly'] = (['C15'], [('client.py', "        server = RPCServer.get_server()\n        if server is None:\n            return None\n        if isinstance", "        server = self._local_server\n        if server is None:\n            return None\n        if isinstance")])
M['c15-lazyreg'] = (['C15'], [('server.py', "        logger.info(\"RPC lazy-start server: %s@%s\", name, self.address.decode())\n        RPCServer.register_server(self)\n", "        logger.info(\"RPC lazy-start server: %s@%s\", name, self.address.decode())\n")])
M['c15-emptyserve'] = (['C15'], [('client.py', "                elif len(socks) > 0: \n", "                else:\n")])
M['c15-pollout'] = (['C15'], [('client.py', "            self._poller.register(server._socket, zmq.POLLIN)\n", "            self._poller.register(server._socket, zmq.POLLOUT)\n")])
R['c15-newpoller'] = ([], [('client.py', "        if self._poller is None or self._polled_server is not server:\n            self._poller = zmq.Poller()\n            self._poller.register(self._socket, zmq.POLLIN)\n            self._poller.register(server._socket, zmq.POLLIN)\n            self._polled_server = server\n        return self._poller\n", "        if self._polled_server is server and self._poller is not None:\n            return self._poller\n        poller = zmq.Poller()\n        for sock in (self._socket, server._socket):\n            poller.register(sock, zmq.POLLIN)\n        self._poller, self._polled_server = poller, server\n        return poller\n")])
R['c15-dict'] = ([], [('client.py', "                socks = [x[0] for x in poller.poll(itimeout)]\n", "                socks = dict(poller.poll(itimeout))\n")])
R['c15-loop'] = ([], [('client.py', "                socks = [x[0] for x in poller.poll(itimeout)]\n                if self._socket in socks:\n                    self._read_and_process_one(timeout=0)\n                elif len(socks) > 0: \n                    server = RPCServer.get_server()\n                    if server is None:\n                        # this can happen after server has unregistered itself \n                        # at exit\n                        continue\n                    server._read_and_process_one()", "                server = RPCServer.get_server()\n                socks = dict(poller.poll(itimeout))\n                if self._socket in socks:\n                    self._read_and_process_one(timeout=0)\n                elif server is not None and server._socket in socks:\n                    server._read_and_process_one()")])
R['c15-always'] = ([], [('client.py', "        if self._poller is None or self._polled_server is not server:\n            self._poller = zmq.Poller()\n            self._poller.register(self._socket, zmq.POLLIN)\n            self._poller.register(server._socket, zmq.POLLIN)\n            self._polled_server = server\n        return self._poller\n", "        poller = zmq.Poller()\n        poller.register(self._socket, zmq.POLLIN)\n        poller.register(server._socket, zmq.POLLIN)\n        return poller\n")])
R['c15-qtfirst'] = ([], [('client.py', "            if poller is None:\n                self._read_and_process_one(itimeout)\n            elif poller == 'qt':\n                # Server runs in Qt thread; we need to time-share with Qt event\n                # loop.\n                from .qt import QApplication\n                QApplication.processEvents()\n                try:\n                    self._read_and_process_one(timeout=0.05)\n                except TimeoutError:\n                    pass\n", "            if poller == 'qt':\n                self._wait_qt()\n            elif poller is None:\n                self._read_and_process_one(itimeout)\n"), ('client.py', "    def _read_and_process_one(self, timeout)", "    def _wait_qt(self):\n        from .qt import QApplication\n        QApplication.processEvents()\n        try:\n            self._read_and_process_one(timeout=0.05)\n        except TimeoutError:\n            return\n\n    def _read_and_process_one(self, timeout)")])
# ---- C18
M['c18-exconly'] = (['C18'], [('process.py', "    except:\n        # leave nothing behind\n", "    except Exception:\n        # leave nothing behind\n")])
M['c18-nokill'] = (['C18'], [('process.py', "            launched.kill()\n            launched.wait(timeout=10)\n        raise\n", "            launched.wait(timeout=10)\n        raise\n")])
M['c18-pollkill'] = (['C18'], [('process.py', "        if launched is not None:\n            launched.kill()\n            launched.wait(timeout=10)\n        raise\n", "        if launched is not None and 'pid' not in status:\n            launched.kill()\n            launched.wait(timeout=10)\n        raise\n")])
M['c18-nopidkill'] = (['C18'], [('process.py', "            try:\n                kill_pid(status['pid'])\n            except OSError:\n                pass\n        if launched", "            logger.warning('giving up on %d', status['pid'])\n        if launched")])
M['c18-sigterm'] = (['C18'], [('process.py', "                kill_pid(status['pid'])\n            except OSError:\n                pass\n        if launched", "                os.kill(status['pid'], 0)\n            except OSError:\n                pass\n        if launched"), ('process.py', "import sys\n", "import os\nimport sys\n")])
M['c18-noclose'] = (['C18'], [('process.py', "    finally:\n        bootstrap_sock.close()\n\n    if daemon", "    bootstrap_sock.close()\n\n    if daemon")])
M['c18-closeonerr'] = (['C18'], [('process.py', "        raise\n    finally:\n        bootstrap_sock.close()\n", "        bootstrap_sock.close()\n        raise\n")])
M['c18-norcv'] = (['C18'], [('process.py', "        bootstrap_sock.setsockopt(zmq.RCVTIMEO, 10000)\n", "")])
M['c18-nosnd'] = (['C18'], [('process.py', "        bootstrap_sock.setsockopt(zmq.SNDTIMEO, 10000)\n", "")])
M['c18-inf'] = (['C18'], [('process.py', "bootstrap_sock.setsockopt(zmq.RCVTIMEO, 10000)", "bootstrap_sock.setsockopt(zmq.RCVTIMEO, -1 if shell else 10000)")])
M['c18-daemonwait'] = (['C18'], [('process.py', "            proc.wait(timeout=10)  # prevent zombie", "            proc.wait()  # prevent zombie")])
M['c18-killwait'] = (['C18'], [('process.py', "            launched.wait(timeout=10)\n        raise\n", "            launched.wait()\n        raise\n")])
M['c18-retry'] = (['C18'], [('process.py', "            status = bootstrap_sock.recv_json()\n", "            while True:\n                try:\n                    status = bootstrap_sock.recv_json()\n                    break\n                except zmq.error.Again:\n                    logger.info('waiting for %s', name)\n")])
M['c18-clientlate'] = (['C18'], [('process.py', "            client = RPCClient(address.encode(), serializer=serializer, start_local_server=start_local_server)\n        else:", "        else:"), ('process.py', "        bootstrap_sock.close()\n\n    if daemon", "        bootstrap_sock.close()\n\n    client = RPCClient(address.encode(), serializer=serializer, start_local_server=start_local_server)\n    if daemon")])
M['c18-reqaddr'] = (['C18'], [('process.py', "            address = status['address']\n", "            address = status['address'] if address.endswith('*') else address\n")])
M['c18-noser'] = (['C18'], [('process.py', "RPCClient(address.encode(), serializer=serializer, start_local_server=start_local_server)", "RPCClient(address.encode(), start_local_server=start_local_server)")])
M['c18-nolocal'] = (['C18'], [('process.py', "serializer=serializer, start_local_server=start_local_server)", "serializer=serializer)")])
M['c18-latelaunched'] = (['C18'], [('process.py', "        proc = launched = subprocess.Popen(cmd, **popen_kwargs)\n", "        proc = subprocess.Popen(cmd, **popen_kwargs)\n"), ('process.py', "        logger.info(f'Spawned process \"{name}\" with", "        launched = proc\n        logger.info(f'Spawned process \"{name}\" with")])
M['c18-procnone'] = (['C18'], [('process.py', "        if launched is not None:\n            launched.kill()\n            launched.wait(timeout=10)\n        raise\n", "        if proc is not None:\n            proc.kill()\n            proc.wait(timeout=10)\n        raise\n"), ('process.py', "    launched = None\n    status", "    proc = None\n    status"), ('process.py', "proc = launched = subprocess", "proc = subprocess")])
M['c18-noassign'] = (['C18'], [('process.py', "            status = bootstrap_sock.recv_json()\n", "            reply = bootstrap_sock.recv_json()\n"), ('process.py', "            bootstrap_sock.send(b'OK')\n", "            bootstrap_sock.send(b'OK')\n            status = reply\n"), ('process.py', "logger.debug(\"recv status %s\", status)", "logger.debug(\"recv status %s\", reply)")])
M['c18-pidesc'] = (['C18'], [('process.py', "                kill_pid(status['pid'])\n            except OSError:\n                pass\n        if launched is not None:\n            launched.kill()\n            launched.wait(timeout=10)\n        raise\n", "                kill_pid(status['pid'])\n            except ProcessLookupError:\n                pass\n        if launched is not None:\n            launched.kill()\n            launched.wait(timeout=10)\n        raise\n")])
R['c18-helper'] = ([], [('process.py', "        if 'pid' in status:\n            # (the launched process is not the one running the server in case of\n            # daemons, or if executed via a shell)\n            try:\n                kill_pid(status['pid'])\n            except OSError:\n                pass\n        if launched is not None:\n            launched.kill()\n            launched.wait(timeout=10)\n        raise\n", "        _abandon(launched, status)\n        raise\n"),
  ('process.py', "class DaemonProcess:", "def _abandon(launched, status):\n    pid = status.get('pid')\n    if pid is not None:\n        try:\n            kill_pid(pid)\n        except OSError:\n            pass\n    if launched is None:\n        return\n    launched.kill()\n    launched.wait(timeout=10)\n\n\nclass DaemonProcess:")])
R['c18-report'] = ([], [('process.py', "        try:\n            status = bootstrap_sock.recv_json()\n            logger.debug(\"recv status %s\", status)\n            bootstrap_sock.send(b'OK')\n        except zmq.error.Again:\n            raise TimeoutError(\"Timed out waiting for response from spawned process.\")\n", "        _receive_report(bootstrap_sock, status)\n"),
  ('process.py', "class DaemonProcess:", "def _receive_report(sock, status):\n    try:\n        status.update(sock.recv_json())\n        sock.send(b'OK')\n    except zmq.error.Again:\n        raise TimeoutError('Timed out waiting for response from spawned process.')\n\n\nclass DaemonProcess:")])
R['c18-order'] = ([], [('process.py', "        if 'pid' in status:\n            # (the launched process is not the one running the server in case of\n            # daemons, or if executed via a shell)\n            try:\n                kill_pid(status['pid'])\n            except OSError:\n                pass\n        if launched is not None:\n            launched.kill()\n            launched.wait(timeout=10)\n        raise\n", "        if launched is not None:\n            launched.kill()\n        if 'pid' in status:\n            try:\n                kill_pid(status['pid'])\n            except OSError:\n                pass\n        if launched is not None:\n            launched.wait(timeout=10)\n        raise\n")])
R['c18-error-first'] = ([], [('process.py', "        if 'address' in status:\n            address = status['address']\n            #: An RPCClient instance that is connected to the RPCServer in the remote process\n            client = RPCClient(address.encode(), serializer=serializer, start_local_server=start_local_server)\n        else:\n            err = ''.join(status['error'])\n            raise RuntimeError(f\"Error while spawning process:\\n{err}\")\n", "        if 'address' not in status:\n            err = ''.join(status['error'])\n            raise RuntimeError(f\"Error while spawning process:\\n{err}\")\n        reported = status['address'].encode()\n        client = RPCClient(reported, serializer=serializer, start_local_server=start_local_server)\n")])
R['c18-poll'] = ([], [('process.py', "            status = bootstrap_sock.recv_json()\n", "            if not bootstrap_sock.poll(10000):\n                raise TimeoutError('Timed out waiting for response from spawned process.')\n            status = bootstrap_sock.recv_json()\n")])
# ---- C19
M['c19-logkey'] = (['C19'], [('process.py', "f'--logaddr={log_addr}'", "f'--log_addr={log_addr}'")])
M['c19-nodecode'] = (['C19'], [('process.py', "        if isinstance(address, bytes):\n            address = address.decode()\n", "")])
M['c19-logbytes'] = (['C19'], [('process.py', "            if isinstance(log_addr, bytes):\n                log_addr = log_addr.decode()\n", "")])
M['c19-nolevel'] = (['C19'], [('process.py', "        log_level = logger.getEffectiveLevel()\n    elif isinstance(log_level, str):\n        log_level = getattr(logging, log_level.upper())\n", "        log_level = logger.getEffectiveLevel()\n"), ('bootstrap.py', "getattr(logging, conf['loglevel'].upper())", "logging.getLevelName(conf['loglevel'])")])
M['c19-levelchild'] = (['C19'], [('bootstrap.py', "        conf['loglevel'] = int(conf['loglevel'])\n", "        pass\n")])
M['c19-dash'] = (['C19'], [('process.py', "bootstrap_args.extend(['--', name])", "bootstrap_args.append(name)")])
M['c19-dashlast'] = (['C19'], [('process.py', "            bootstrap_args.extend(['--', name])\n", "            bootstrap_args.extend(['--', name])\n        if daemon is True:\n            bootstrap_args.append('--daemon')\n"), ('process.py', "        if daemon is True:\n            bootstrap_args.append('--daemon')\n        if log_addr", "        if log_addr")])
M['c19-noquote'] = (['C19'], [('process.py', "            bootstrap_args = [shlex.quote(arg) for arg in bootstrap_args]\n", "            pass\n")])
M['c19-daemonlog'] = (['C19'], [('process.py', "        if log_addr is not None:\n            if isinstance(log_addr, bytes)", "        if log_addr is not None and not daemon:\n            if isinstance(log_addr, bytes)")])
M['c19-prefix'] = (['C19'], [('bootstrap.py', "teleprox.process.PROCESS_NAME_PREFIX = conf['child_name_prefix']\n", "")])
M['c19-prefix2'] = (['C19'], [('process.py', "            bootstrap_args.append(\n                f'--child_name_prefix={PROCESS_NAME_PREFIX}'\n            )\n", "            pass\n")])
M['c19-excepttype'] = (['C19'], [('bootstrap.py', "except:\n    logger.error", "except OSError:\n    logger.error")])
M['c19-early'] = (['C19'], [('bootstrap.py', "# Set up process name prefix if requested\n", "if conf['logaddr'] is not None:\n    log.set_logger_address(conf['logaddr'].encode())\n\n"), ('bootstrap.py', "    if conf['logaddr'] is not None:\n        log.set_logger_address(conf['logaddr'].encode())\n\n    # Also", "    # Also")])
M['c19-erronly'] = (['C19'], [('bootstrap.py', "traceback.format_exception(*sys.exc_info()), 'pid'", "[str(sys.exc_info()[1])], 'pid'")])
M['c19-nopid'] = (['C19'], [('bootstrap.py', "traceback.format_exception(*sys.exc_info()), 'pid': os.getpid()}", "traceback.format_exception(*sys.exc_info())}")])
M['c19-ppid'] = (['C19'], [('bootstrap.py', "server.address.decode(), 'pid': os.getpid()}", "server.address.decode(), 'pid': os.getppid()}")])
M['c19-reqaddr'] = (['C19'], [('bootstrap.py', "'address': server.address.decode()", "'address': conf['listen_addr']")])
M['c19-once'] = (['C19'], [('bootstrap.py', "            bootstrap_sock.recv(zmq.NOBLOCK)\n            break\n", "            break\n")])
M['c19-noretry'] = (['C19'], [('bootstrap.py', "            time.sleep(0.01)\n            continue\n", "            time.sleep(0.01)\n            break\n")])
M['c19-errlost'] = (['C19'], [('process.py', "            err = ''.join(status['error'])\n            raise RuntimeError(f\"Error while spawning process:\\n{err}\")\n", "            raise RuntimeError(f\"Error while spawning process {name}\")\n")])
M['c19-errkey'] = (['C19'], [('bootstrap.py', "status = {'error': traceback", "status = {'exception': traceback")])
M['c19-fmt'] = (['C19'], [('bootstrap.py', "\"Error starting {class_name}({listen_addr}):\"", "\"Error starting {class_name}({address}):\"")])
M['c19-child-name'] = (['C19'], [('bootstrap.py', "    if conf['procname'] is not None:\n        log.set_process_name(conf['procname'])\n", "")])
M['c19-qtclass'] = (['C19'], [('bootstrap.py', "conf['class_name'] = 'QtRPCServer' if conf['qt'] else 'RPCServer'", "conf['class_name'] = 'QtRPCServer' if conf['qt'] and not conf['daemon'] else 'RPCServer'")])
M['c19-storetrue'] = (['C19'], [('bootstrap.py', "'--logaddr', nargs='?', default=None", "'--logaddr', action='store_true'")])
M['c19-silentexit'] = (['C19'], [('bootstrap.py', "    server = server_class(conf['listen_addr'])\n", "    try:\n        server = server_class(conf['listen_addr'])\n    except OSError as exc:\n        os._exit(1)\n")])
M['c19-errorexit'] = (['C19'], [('bootstrap.py', "# Report server status to spawner\n", "if 'error' in status and conf['logaddr'] is not None:\n    sys.exit(1)\n")])
M['c19-levelroot'] = (['C19'], [('bootstrap.py', "logger = logging.getLogger()\n", "logger = logging.getLogger('teleprox')\n")])
R['c19-main'] = ([], [('bootstrap.py', "    start = time.time()\n    while time.time() < start + 10.0:", "    deadline = time.time() + 10.0\n    while time.time() < deadline:")])
R['c19-attrs'] = ([], [('bootstrap.py', "    if conf['procname'] is not None:\n        log.set_process_name(conf['procname'])\n", "    if args.procname:\n        log.set_process_name(args.procname)\n"), ('bootstrap.py', "server = server_class(conf['listen_addr'])", "server = server_class(args.listen_addr)")])
R['c19-class'] = ([], [('bootstrap.py', "    server_class = getattr(teleprox, conf['class_name'])\n    server = server_class(conf['listen_addr'])\n", "    if conf['qt']:\n        server = teleprox.QtRPCServer(address=conf['listen_addr'])\n    else:\n        server = teleprox.RPCServer(address=conf['listen_addr'])\n")])
R['c19-reportfn'] = ([], [('bootstrap.py', "    start = time.time()\n    while time.time() < start + 10.0:\n        # send status repeatedly until spawner gives a reply.\n        try:\n            bootstrap_sock.send_json(status, zmq.NOBLOCK)\n            bootstrap_sock.recv(zmq.NOBLOCK)\n            break\n        except zmq.error.Again:\n            time.sleep(0.01)\n            continue\n    else:\n        # spawner does not exist anymore or has given up waiting\n        sys.exit(1)\n", "    if not report(bootstrap_sock, status):\n        sys.exit(1)\n"),
  ('bootstrap.py', "# Report server status to spawner\n", "def report(sock, status, timeout=10.0):\n    start = time.time()\n    while time.time() - start < timeout:\n        try:\n            sock.send_json(status, zmq.NOBLOCK)\n            sock.recv(zmq.NOBLOCK)\n            return True\n        except zmq.error.Again:\n            time.sleep(0.01)\n    return False\n\n\n")])
R['c19-argsfn'] = ([], [('process.py', "        bootstrap_args.extend([\n            f'--loglevel={log_level}',\n            f'--listen_addr={address}',\n            f'--bootstrap_addr={bootstrap_addr.decode()}',\n        ])\n", "        bootstrap_args += ['--loglevel', str(log_level)]\n        bootstrap_args.append('--listen_addr=%s' % address)\n        bootstrap_args.append('--bootstrap_addr={}'.format(bootstrap_addr.decode()))\n")])
R['c19-join'] = ([], [('process.py', "            bootstrap_args = [shlex.quote(arg) for arg in bootstrap_args]\n", "            bootstrap_args = list(map(shlex.quote, bootstrap_args))\n")])
R['c19-mainfn'] = ([], [('bootstrap.py', "    if conf['logaddr'] is not None:\n        log.set_logger_address(conf['logaddr'].encode())\n", "    _forward_logs(conf)\n"), ('bootstrap.py', "# Set up process name prefix if requested\n", "def _forward_logs(conf):\n    if conf['logaddr'] is None:\n        return\n    log.set_logger_address(conf['logaddr'].encode())\n\n\n")])
R['c19-status'] = ([], [('bootstrap.py', "    status = {'address': server.address.decode(), 'pid': os.getpid()}\nexcept", "    status = {'address': server.address.decode()}\nexcept"), ('bootstrap.py', "    status = {'error': traceback.format_exception(*sys.exc_info()), 'pid': os.getpid()}\n", "    status = {'error': traceback.format_exc()}\nstatus['pid'] = os.getpid()\n")])
# ---- C20
FORK = "    if os.fork() != 0:\n        sys.exit(0)\n    os.setsid()\n    if os.fork() != 0:\n        sys.exit(0)\n"
M['c20-nosetsid'] = (['C20'], [('bootstrap.py', "    os.setsid()\n", "")])
M['c20-leader'] = (['C20'], [('bootstrap.py', "    os.setsid()\n    if os.fork() != 0:\n        sys.exit(0)\n", "    os.setsid()\n")])
M['c20-late'] = (['C20'], [('bootstrap.py', FORK, "    if os.fork() != 0:\n        sys.exit(0)\n    if os.fork() != 0:\n        sys.exit(0)\n    os.setsid()\n")])
M['c20-parent'] = (['C20'], [('bootstrap.py', FORK, "    if os.fork() != 0:\n        os._exit(0)\n    os.setsid()\n    if os.fork() == 0:\n        os._exit(0)\n")])
M['c20-pgid'] = (['C20'], [('bootstrap.py', "    os.setsid()\n", "    os.setpgid(0, 0)\n")])
M['c20-nodup-inherit'] = (['C20'], [('bootstrap.py', "    os.dup2(devnull.fileno(), 2)  # Redirect stderr\n", ""), ('process.py', "            popen_kwargs['stderr'] = subprocess.DEVNULL\n", "")])
M['c20-mode'] = (['C20'], [('bootstrap.py', "open('/dev/null', 'r+')", "open('/dev/null')")])
M['c20-early'] = (['C20'], [('bootstrap.py', "# Fork and detach", "import zmq\nctx = zmq.Context.instance()\n\n# Fork and detach")])
M['c20-earlylog'] = (['C20'], [('bootstrap.py', "# Fork and detach", "from teleprox import log\nif conf['logaddr'] is not None:\n    log.set_logger_address(conf['logaddr'].encode())\n\n# Fork and detach")])
M['c20-cond'] = (['C20'], [('bootstrap.py', "if conf['daemon'] is True and sys.platform", "if conf['daemon'] is True and not conf['qt'] and sys.platform")])
M['c20-atexit'] = (['C20'], [('process.py', "        self.qt = qt\n        self.pid = pid\n", "        self.qt = qt\n        self.pid = pid\n        atexit.register(self.stop)\n")])
M['c20-del'] = (['C20'], [('process.py', "class ChildProcess:", "    def __del__(self):\n        self.kill()\n\n\nclass ChildProcess:")])
M['c20-subclass'] = (['C20'], [('process.py', "class DaemonProcess:", "class _Handle:\n    def __del__(self):\n        if self.client is not None:\n            self.client.close_server(sync='off')\n\n\nclass DaemonProcess(_Handle):")])
M['c20-registry'] = (['C20'], [('process.py', "        return DaemonProcess(client, name, qt, status['pid'])\n", "        p = DaemonProcess(client, name, qt, status['pid'])\n        _started.append(p)\n        return p\n"), ('process.py', "class DaemonProcess:", "_started = []\n\n\n@atexit.register\ndef _stop_all():\n    for p in _started:\n        p.stop()\n\n\nclass DaemonProcess:")])
M['c20-fin'] = (['C20'], [('process.py', "        return DaemonProcess(client, name, qt, status['pid'])\n", "        p = DaemonProcess(client, name, qt, status['pid'])\n        weakref.finalize(p, kill_pid, p.pid)\n        return p\n"), ('process.py', "import sys\n", "import sys\nimport weakref\n")])
R['c20-loop'] = ([], [('bootstrap.py', "    os.dup2(devnull.fileno(), 0)  # Redirect stdin\n    os.dup2(devnull.fileno(), 1)  # Redirect stdout\n    os.dup2(devnull.fileno(), 2)  # Redirect stderr\n", "    for fd in (0, 1, 2):\n        os.dup2(devnull.fileno(), fd)\n")])
R['c20-fn'] = ([], [('bootstrap.py', FORK, "    fork_off()\n    os.setsid()\n    fork_off()\n"), ('bootstrap.py', "# Fork and detach", "def fork_off():\n    pid = os.fork()\n    if pid > 0:\n        os._exit(0)\n\n\n# Fork and detach")])
R['c20-osopen'] = ([], [('bootstrap.py', "    devnull = open('/dev/null', 'r+')\n", "    devnull = os.open(os.devnull, os.O_RDWR)\n"), ('bootstrap.py', "    os.dup2(devnull.fileno(), 0)  # Redirect stdin\n    os.dup2(devnull.fileno(), 1)  # Redirect stdout\n    os.dup2(devnull.fileno(), 2)  # Redirect stderr\n", "    os.dup2(devnull, sys.stdin.fileno())\n    os.dup2(devnull, sys.stdout.fileno())\n    os.dup2(devnull, sys.stderr.fileno())\n")])
R['c20-newsession'] = ([], [('bootstrap.py', FORK, "    if os.fork():\n        sys.exit(0)\n"), ('process.py', "            popen_kwargs['stdin'] = subprocess.DEVNULL\n            popen_kwargs['stdout']", "            popen_kwargs['start_new_session'] = True\n            popen_kwargs['stdin'] = subprocess.DEVNULL\n            popen_kwargs['stdout']")])
R['c20-detachfn'] = ([], [('bootstrap.py', "# Fork and detach requested", "# x")] if 0 else [('bootstrap.py', "    if os.fork() != 0:\n        sys.exit(0)\n    os.setsid()\n", "    first = os.fork()\n    if first == 0:\n        os.setsid()\n    else:\n        sys.exit(0)\n")])
# ---- C21
M['c21-noatexit'] = (['C21'], [('process.py', "        atexit.register(self.stop)\n", "        pass\n")])
M['c21-weak'] = (['C21'], [('process.py', "        atexit.register(self.stop)\n", "        ref = weakref.ref(self)\n        atexit.register(lambda: ref() and ref().stop())\n"), ('process.py', "import sys\n", "import sys\nimport weakref\n")])
M['c21-qtonly'] = (['C21'], [('process.py', "        atexit.register(self.stop)\n", "        if not qt:\n            atexit.register(self.stop)\n")])
M['c21-nowait'] = (['C21'], [('process.py', "        return self.wait(timeout)\n", "        return self.proc.poll()\n")])
M['c21-noret'] = (['C21'], [('process.py', "        return self.wait(timeout)\n", "        self.wait(timeout)\n")])
M['c21-killnowait'] = (['C21'], [('process.py', "        self.proc.kill()\n\n        return self.wait()\n", "        self.proc.kill()\n")])
M['c21-term'] = (['C21'], [('process.py', "        self.proc.kill()\n\n        return", "        self.proc.terminate()\n\n        return")])
M['c21-stale'] = (['C21'], [('process.py', "        if self.proc.poll() is not None:\n            return\n        logger.info(\"Kill child", "        if self.proc.returncode is not None:\n            return\n        logger.info(\"Kill child")])
M['c21-stopfalsy'] = (['C21'], [('process.py', "        if self.proc.poll() is not None:\n            # process has already exited\n", "        if self.proc.poll():\n            # process has already exited\n")])
M['c21-stoptimeout'] = (['C21'], [('process.py', "close_server(timeout=timeout)\n        assert closed is True, f\"Server refused to close. (reply: {closed})\"\n\n        return", "close_server()\n        assert closed is True, f\"Server refused to close. (reply: {closed})\"\n\n        return")])
M['c21-uncaught'] = (['C21'], [('process.py', "        except (AttributeError, ValueError):\n", "        except AttributeError:\n")])
M['c21-expired'] = (['C21'], [('process.py', "        except subprocess.TimeoutExpired as exc:\n            raise TimeoutError(f'Timed out waiting for process \"{self.name}\" to exit') from exc\n", "        except subprocess.TimeoutExpired as exc:\n            raise\n")])
M['c21-swallow'] = (['C21'], [('process.py', "            raise TimeoutError(f'Timed out waiting for process \"{self.name}\" to exit') from exc\n", "            return self.proc.returncode\n")])
M['c21-half'] = (['C21'], [('process.py', "self.proc.communicate(timeout=timeout)", "self.proc.communicate(timeout=timeout / 2)")])
M['c21-notimeout'] = (['C21'], [('process.py', "self.proc.wait(timeout=timeout)", "self.proc.wait()")])
M['c21-falsycode'] = (['C21'], [('process.py', "            if rcode is not None:\n                return rcode\n", "            if rcode != 0:\n                return rcode\n")])
M['c21-startreset'] = (['C21'], [('process.py', "            time.sleep(sleep)\n            sleep = min(sleep*2, 100e-3)\n", "            start = time.time()\n            time.sleep(sleep)\n            sleep = min(sleep*2, 100e-3)\n")])
M['c21-cmp'] = (['C21'], [('process.py', "            if time.time() - start > timeout:\n", "            if time.time() - start < timeout:\n")])
M['c21-ms'] = (['C21'], [('process.py', "            if time.time() - start > timeout:\n", "            if time.time() - start > timeout / 10:\n")])
M['c21-waitclose'] = (['C21'], [('process.py', "        sleep = 1e-3\n", "        self.proc.terminate()\n        sleep = 1e-3\n")])
M['c21-unregister'] = (['C21'], [('process.py', "    client = None\n" if 0 else "        return ChildProcess(proc, client, name, qt, stdio_logger)\n", "        child = ChildProcess(proc, client, name, qt, stdio_logger)\n        if stdio_logger is not None:\n            atexit.unregister(child.stop)\n        return child\n")])
M['c21-client-closed'] = (['C21'], [('process.py', "        if self.proc.poll() is not None:\n            # process has already exited\n            return\n", "        if self.proc.poll() is not None or self.client.disconnected():\n            # process has already exited\n            return\n")])
R['c21-deadline'] = ([], [('process.py', "        start = time.time()\n\n        # Using", "        deadline = time.time() + timeout\n\n        # Using"), ('process.py', "            if time.time() - start > timeout:\n", "            if time.time() > deadline:\n")])
R['c21-helper'] = ([], [('process.py', "        if self.proc.poll() is not None:\n            return\n        logger.info(\"Kill child", "        if not self._running():\n            return\n        logger.info(\"Kill child"), ('process.py', "        if self.proc.poll() is not None:\n            # process", "        if not self._running():\n            # process"), ('process.py', "    def kill(self):\n        \"\"\"Kill the spawned process immediately.\n        \"\"\"\n", "    def _running(self):\n        return self.proc.poll() is None\n\n    def kill(self):\n        \"\"\"Kill the spawned process immediately.\n        \"\"\"\n")])
R['c21-lambda'] = ([], [('process.py', "        atexit.register(self.stop)\n", "        atexit.register(lambda: self.stop(timeout=10))\n")])
R['c21-loop'] = ([], [('process.py', "        while True:\n            rcode = self.proc.poll()\n            if rcode is not None:\n                return rcode\n            if time", "        while self.proc.poll() is None:\n            if time"), ('process.py', "            sleep = min(sleep*2, 100e-3)\n", "            sleep = min(sleep*2, 100e-3)\n        return self.proc.returncode\n")])
R['c21-waiter'] = ([], [('process.py', "            if self.stdio_logger is None:\n                self.proc.communicate(timeout=timeout)\n            else:\n                # the child's pipes are read by the stdio logger only\n                self.proc.wait(timeout=timeout)\n", "            waiter = self.proc.communicate if self.stdio_logger is None else self.proc.wait\n            waiter(timeout=timeout)\n")])
R['c21-register-outside'] = ([], [('process.py', "        atexit.register(self.stop)\n", "        pass\n"), ('process.py', "        return ChildProcess(proc, client, name, qt, stdio_logger)\n", "        child = ChildProcess(proc, client, name, qt, stdio_logger)\n        atexit.register(child.stop, timeout=10)\n        return child\n")])

# ---- C23
RM = 'log/remote.py'
M['c23-handle-filter'] = (['C23'], [(RM, "        self.record_queue.put(record)\n        return True", "        if record.levelno >= logging.INFO:\n            self.record_queue.put(record)\n        return True")])
M['c23-maxsize'] = (['C23'], [(RM, "queue.Queue()", "queue.Queue(maxsize=1000)")])
M['c23-lifo'] = (['C23'], [(RM, "queue.Queue()", "queue.LifoQueue()")])
M['c23-noguard'] = (['C23'], [(RM, "            try:\n                self._handle(record)\n            except Exception:\n                # keep this thread alive\n                self.handleError(record)\n", "            self._handle(record)\n")])
M['c23-narrow'] = (['C23'], [(RM, "            except Exception:\n                # keep this thread alive\n                self.handleError(record)", "            except (TypeError, zmq.ZMQError):\n                # keep this thread alive\n                self.handleError(record)")])
M['c23-stop-falsy'] = (['C23'], [(RM, "            except Exception:\n                # keep this thread alive\n                self.handleError(record)", "            except Exception:\n                # keep this thread alive\n                self.handleError(record)\n                break")])
M['c23-msg-raw'] = (['C23'], [(RM, "rec['msg'] = record.getMessage()", "rec['msg'] = str(record.msg)")])
M['c23-args-kept'] = (['C23'], [(RM, "args = rec.pop('args')", "args = rec.get('args')")])
M['c23-excinfo-kept'] = (['C23'], [(RM, "exc_info = rec.pop('exc_info')", "exc_info = rec['exc_info']")])
M['c23-exc-lost'] = (['C23'], [(RM, "        if exc_info and not rec['exc_text']:\n            rec['exc_text'] = logging.Formatter().formatException(exc_info)\n", "")])
M['c23-exc-inverted'] = (['C23'], [(RM, "if exc_info and not rec['exc_text']:", "if exc_info and rec['exc_text']:")])
M['c23-exc-error-only'] = (['C23'], [(RM, "if exc_info and not rec['exc_text']:", "if exc_info and not rec['exc_text'] and record.levelno >= logging.ERROR:")])
M['c23-key'] = (['C23'], [(RM, "rec['host_name'] = host_name", "rec['hostname'] = host_name")])
M['c23-key-read'] = (['C23'], [('log/handler.py', "getattr(record, 'process_name', get_process_name())", "getattr(record, 'processName', get_process_name())")])
M['c23-thread-current'] = (['C23'], [(RM, "thread_names.get(rec['thread'], rec['threadName'])", "get_thread_name()")])
M['c23-process-if'] = (['C23'], [(RM, "if process_name is not None:", "if process_name is not None and 'process_name' in rec:")])
M['c23-unformattable'] = (['C23'], [(RM, "        try:\n            rec['msg'] = record.getMessage()\n        except Exception:\n            rec['msg'] = '%s (could not be formatted with args: %s)' % (\n                self._describe(record.msg), self._describe(args))\n", "        rec['msg'] = record.getMessage()\n")])
M['c23-nosanitise'] = (['C23'], [(RM, "            try:\n                json.dumps(value)\n            except Exception:\n                rec[key] = self._describe(value)\n", "            if isinstance(value, (set, frozenset, bytes)):\n                rec[key] = self._describe(value)\n")])
M['c23-sanitise-pass'] = (['C23'], [(RM, "                rec[key] = self._describe(value)\n", "                pass\n")])
M['c23-connect-late'] = (['C23'], [(RM, "        socket.connect(addr)\n        # used by the sender thread only from now on\n        self.record_queue.put(socket)", "        self.record_queue.put(socket)")])
M['c23-connect-once'] = (['C23'], [(RM, "        # used by the sender thread only from now on\n        self.record_queue.put(socket)", "        if self.socket is None:\n            self.record_queue.put(socket)")])
M['c23-setaddr'] = (['C23'], [(RM, "    if sender is not None:\n        sender.connect(addr)\n    else:\n        sender = LogSender(addr, '')", "    if sender is None:\n        sender = LogSender(addr, '')")])
M['c23-setaddr-logger'] = (['C23'], [(RM, "sender = LogSender(addr, '')", "sender = LogSender(addr, __name__)")])
M['c23-getaddr'] = (['C23'], [(RM, "    if server is None:\n        return server_addr\n    else:\n        return server.address\n", "    if server_addr is not None:\n        return server_addr\n    return server and server.address\n")])
M['c23-setsock-if'] = (['C23'], [(RM, "        if self.socket is not None:\n            self.socket.close()\n        self.socket = socket", "        if self.socket is None:\n            self.socket = socket\n        elif socket is None:\n            self.socket.close()")])
M['c23-srv-noguard'] = (['C23'], [(RM, "                kwds = json.loads(msg)\n                rec = logging", "                rec = logging"), (RM, "            msg = self.socket.recv()\n            try:\n", "            kwds = json.loads(self.socket.recv())\n            try:\n")])
M['c23-srv-narrow'] = (['C23'], [(RM, "            except Exception:\n                # keep this thread alive\n                traceback", "            except ValueError:\n                # keep this thread alive\n                traceback")])
M['c23-srv-le'] = (['C23'], [(RM, "rec.levelno < self.logger.getEffectiveLevel()", "rec.levelno <= self.logger.getEffectiveLevel()")])
M['c23-srv-or'] = (['C23'], [(RM, "if self.filter_by_level and rec.levelno <", "if self.filter_by_level or rec.levelno <")])
M['c23-srv-nofilter'] = (['C23'], [(RM, "if self.filter_by_level and rec.levelno < self.logger.getEffectiveLevel():\n                    continue", "pass")])
M['c23-srv-level'] = (['C23'], [(RM, "self.logger.getEffectiveLevel()", "self.logger.level")])
M['c23-srv-break'] = (['C23'], [(RM, "            if self.socket not in events:\n                continue", "            if self.socket not in events:\n                break")])
M['c23-srv-last'] = (['C23'], [(RM, "                # keep this thread alive\n                traceback.print_exc()", "                # keep this thread alive\n                traceback.print_exc()\n                self.running = False\n                return")])
R['c23-helper'] = ([], [(RM, "        exc_info = rec.pop('exc_info')\n        if exc_info and not rec['exc_text']:\n            rec['exc_text'] = logging.Formatter().formatException(exc_info)\n", "        self._add_exc_text(rec, rec.pop('exc_info'))\n"),
    (RM, "    @staticmethod\n    def _describe(obj):", "    @staticmethod\n    def _add_exc_text(rec, exc_info):\n        if not exc_info:\n            return\n        if rec['exc_text']:\n            return\n        rec['exc_text'] = logging.Formatter().formatException(exc_info)\n\n    @staticmethod\n    def _describe(obj):")])
R['c23-update'] = ([], [(RM, "        rec['thread_name'] = thread_names.get(rec['thread'], rec['threadName'])\n        rec['host_name'] = host_name\n", "        rec.update(thread_name=thread_names.get(record.thread, record.threadName), host_name=get_host_name())\n")])
R['c23-dict'] = ([], [(RM, "rec = record.__dict__.copy()", "rec = dict(vars(record))")])
R['c23-serialisable'] = ([], [(RM, "        for key, value in rec.items():\n            try:\n                json.dumps(value)\n            except Exception:\n                rec[key] = self._describe(value)\n        self.socket.send(json.dumps(rec).encode('utf-8'))\n",
    "        for key in list(rec):\n            rec[key] = self._serializable(rec[key])\n        data = json.dumps(rec)\n        self.socket.send(data.encode('utf-8'))\n\n    def _serializable(self, value):\n        try:\n            json.dumps(value)\n            return value\n        except Exception:\n            return self._describe(value)\n")])
R['c23-level-swap'] = ([], [(RM, "                if self.filter_by_level and rec.levelno < self.logger.getEffectiveLevel():\n                    continue\n                self.logger.handle(rec)\n", "                if not self.filter_by_level or self.logger.getEffectiveLevel() <= rec.levelno:\n                    self.logger.handle(rec)\n")])
R['c23-enabled'] = ([], [(RM, "rec.levelno < self.logger.getEffectiveLevel():", "not self._accepts(rec):"), (RM, "    def stop(self):\n        self.running = False", "    def _accepts(self, rec):\n        level = self.logger.getEffectiveLevel()\n        return rec.levelno >= level\n\n    def stop(self):\n        self.running = False")])
R['c23-srv-process'] = ([], [(RM, "            try:\n                kwds = json.loads(msg)\n                rec = logging.makeLogRecord(kwds)\n                if self.filter_by_level and rec.levelno < self.logger.getEffectiveLevel():\n                    continue\n                self.logger.handle(rec)\n", "            try:\n                self._process(msg)\n"),
    (RM, "    def stop(self):\n        self.running = False", "    def _process(self, msg):\n        rec = logging.makeLogRecord(json.loads(msg))\n        if self.filter_by_level and rec.levelno < self.logger.getEffectiveLevel():\n            return\n        self.logger.handle(rec)\n\n    def stop(self):\n        self.running = False")])
R['c23-iter'] = ([], [(RM, "        while True:\n            record = self.record_queue.get()\n            if record is None:\n                break\n", "        for record in iter(self.record_queue.get, None):\n")])
R['c23-continue'] = ([], [(RM, "                self._set_socket(record)\n                continue\n            try:\n                self._handle(record)\n            except Exception:\n                # keep this thread alive\n                self.handleError(record)\n", "                self._set_socket(record)\n            else:\n                try:\n                    self._handle(record)\n                except Exception:\n                    # keep this thread alive\n                    self.handleError(record)\n")])

# ---- C24
SD = 'log/stdio.py'
M['c24-strict'] = (['C24'], [(SD, ".decode(errors='backslashreplace')", ".decode()")])
M['c24-replace'] = (['C24'], [(SD, "errors='backslashreplace'", "errors='replace'")])
M['c24-ignore'] = (['C24'], [(SD, "errors='backslashreplace'", "errors='ignore'")])
M['c24-strip'] = (['C24'], [(SD, "callback(prefix + (line[:-1] if line.endswith('\\n') else line))", "callback(prefix + line.rstrip())")])
M['c24-cut'] = (['C24'], [(SD, "(line[:-1] if line.endswith('\\n') else line)", "line[:-1]")])
M['c24-blank-stop'] = (['C24'], [(SD, "if line == '':", "if line.strip() == '':")])
M['c24-blank-skip'] = (['C24'], [(SD, "                break\n", "                break\n            if line == '\\n':\n                continue\n")])
M['c24-format'] = (['C24'], [(SD, "callback(prefix + (line", "callback(prefix, (line")])
M['c24-for-break'] = (['C24'], [(SD, "        while True:\n            # (output may contain anything)\n            line = pipe.readline().decode(errors='backslashreplace')\n            if line == '':\n                break\n", "        for data in pipe:\n            line = data.decode(errors='backslashreplace')\n            if line == '\\n':\n                break\n")])
M['c24-limit'] = (['C24'], [(SD, "pipe.readline()", "pipe.readline(4096)")])
M['c24-swap'] = (['C24'], [(SD, "PipePoller(proc.stderr, self.logger.warning,", "PipePoller(proc.stderr, self.logger.info,")])
M['c24-both-out'] = (['C24'], [(SD, "PipePoller(proc.stderr,", "PipePoller(proc.stdout,")])
M['c24-exit-early'] = (['C24'], [(SD, "            if line == '':\n                break\n", "            if line == '' or self.proc.poll() is not None:\n                break\n"), (SD, "PipePoller(proc.stdout, self.logger.info", "PipePoller(proc, proc.stdout, self.logger.info"), (SD, "PipePoller(proc.stderr, self.logger.warning", "PipePoller(proc, proc.stderr, self.logger.warning"), (SD, "def __init__(self, pipe,", "def __init__(self, proc, pipe,"), (SD, "        self.pipe = pipe\n", "        self.pipe = pipe\n        self.proc = proc\n")])
M['c24-last'] = (['C24'], [(SD, "            if line == '':\n", "            if not line.endswith('\\n'):\n")])
M['c24-late-handler'] = (['C24'], [(SD, "            self.log_handler = LogSender(log_addr, self.logger)\n", ""), (SD, "name='stderr')\n", "name='stderr')\n        if log_addr is not None:\n            self.log_handler = LogSender(log_addr, self.logger)\n")])
M['c24-nologger'] = (['C24'], [(SD, "LogSender(log_addr, self.logger)", "LogSender(log_addr)")])
M['c24-propagate'] = (['C24'], [(SD, "        if log_addr is not None:\n            self.logger.propagate = False\n", "        self.logger.propagate = False\n        if log_addr is not None:\n")])
M['c24-level'] = (['C24'], [(SD, "self.logger.level = log_level", "self.logger.level = max(log_level, logging.WARNING)")])
M['c24-communicate'] = (['C24'], [('process.py', "            if self.stdio_logger is None:\n                self.proc.communicate(timeout=timeout)\n            else:\n                # the child's pipes are read by the stdio logger only\n                self.proc.wait(timeout=timeout)\n", "            self.proc.communicate(timeout=timeout)\n")])
M['c24-nounbuf'] = (['C24'], [('process.py', "cmd = (executable, '-u', '-m',", "cmd = (executable, '-m',")])
M['c24-stderr-merge'] = (['C24'], [('process.py', "popen_kwargs['stderr'] = subprocess.PIPE", "popen_kwargs['stderr'] = subprocess.STDOUT")])
M['c24-default'] = (['C24'], [('process.py', "        if log_stdio is True:\n            stdio_logger =", "        if log_stdio is True and log_addr is not None:\n            stdio_logger =")])
M['c24-text'] = (['C24'], [('process.py', "            'shell': shell,\n        }", "            'shell': shell,\n            'universal_newlines': True,\n        }")])
M['c24-kill-close'] = (['C24'], [('process.py', "        self.proc.kill()\n", "        self.proc.kill()\n        if self.proc.stdout is not None:\n            self.proc.stdout.close()\n")])
R['c24-bytes'] = ([], [(SD, "            line = pipe.readline().decode(errors='backslashreplace')\n            if line == '':\n                break\n", "            data = pipe.readline()\n            if not data:\n                return\n            line = data.decode('utf-8', 'backslashreplace')\n")])
R['c24-removesuffix'] = ([], [(SD, "(line[:-1] if line.endswith('\\n') else line)", "line.removesuffix('\\n')")])
R['c24-if'] = ([], [(SD, "            callback(prefix + (line[:-1] if line.endswith('\\n') else line))", "            if line[-1] == '\\n':\n                line = line[:-1]\n            self._emit(line)\n\n    def _emit(self, line):\n        self.callback('%s%s', self.prefix, line)")])
R['c24-iter'] = ([], [(SD, "        while True:\n            # (output may contain anything)\n            line = pipe.readline().decode(errors='backslashreplace')\n            if line == '':\n                break\n", "        for data in iter(pipe.readline, b''):\n            line = data.decode(errors='backslashreplace')\n")])
R['c24-walrus'] = ([], [(SD, "        while True:\n            # (output may contain anything)\n            line = pipe.readline().decode(errors='backslashreplace')\n            if line == '':\n                break\n", "        while data := pipe.readline():\n            line = data.decode(errors='backslashreplace')\n")])
R['c24-pollers'] = ([], [(SD, "        self.stdout_poller = PipePoller(proc.stdout, self.logger.info, f'[{name}.stdout] ', name='stdout')\n        self.stderr_poller = PipePoller(proc.stderr, self.logger.warning, f'[{name}.stderr] ', name='stderr')\n", "        self.stdout_poller = self._poll(proc.stdout, self.logger.info, name, 'stdout')\n        self.stderr_poller = self._poll(proc.stderr, self.logger.warning, name, 'stderr')\n\n    @staticmethod\n    def _poll(pipe, log, name, stream):\n        return PipePoller(pipe, log, '[%s.%s] ' % (name, stream), name=stream)\n")])
R['c24-for'] = ([], [(SD, "        while True:\n            # (output may contain anything)\n            line = pipe.readline().decode(errors='backslashreplace')\n            if line == '':\n                break\n", "        for data in pipe:\n            line = data.decode(errors='backslashreplace')\n")])
R['c24-level-arg'] = ([], [(SD, "self.logger.info, f'[", "logging.INFO, f'["), (SD, "self.logger.warning, f'[", "logging.WARNING, f'["), (SD, "PipePoller(proc.stdout, ", "PipePoller(proc.stdout, self.logger, "), (SD, "PipePoller(proc.stderr, ", "PipePoller(proc.stderr, self.logger, "), (SD, "(self, pipe, callback, prefix, name)", "(self, pipe, logger, level, prefix, name)"), (SD, "        self.callback = callback\n", "        self.logger = logger\n        self.level = level\n"), (SD, "        callback = self.callback\n", ""), (SD, "            callback(prefix", "            self.logger.log(self.level, prefix")])

# ---- C25
HD = 'log/handler.py'
M['c25-nolock-emit'] = (['C25'], [(HD, "        with self.record_lock:\n            self.records.append(record)\n            self.records.sort(key=lambda rec: rec.created)", "        self.records.append(record)\n        with self.record_lock:\n            self.records.sort(key=lambda rec: rec.created)")])
M['c25-nosort'] = (['C25'], [(HD, "            self.records.sort(key=lambda rec: rec.created)\n", "")])
M['c25-sortkey'] = (['C25'], [(HD, "key=lambda rec: rec.created", "key=lambda rec: rec.relativeCreated")])
M['c25-sortrev'] = (['C25'], [(HD, "key=lambda rec: rec.created", "key=lambda rec: rec.created, reverse=True")])
M['c25-sort-late'] = (['C25'], [(HD, "            self.records.append(record)\n            self.records.sort", "            self.records.append(record)\n        with self.record_lock:\n            self.records.sort")])
M['c25-drop'] = (['C25'], [(HD, "        with self.record_lock:\n            self.records.append(record)", "        with self.record_lock:\n            if len(self.records) > 10000:\n                return\n            self.records.append(record)")])
M['c25-pop-last'] = (['C25'], [(HD, "self.records.pop(0)", "self.records.pop()")])
M['c25-pop-nolock'] = (['C25'], [(HD, "            with self.record_lock:\n                while len(self.records) > 0 and self.records[0].created < limit:\n                    recs.append(self.records.pop(0))\n", "            while len(self.records) > 0 and self.records[0].created < limit:\n                recs.append(self.records.pop(0))\n")])
M['c25-nodelay'] = (['C25'], [(HD, "limit = time.time() - self.delay", "limit = time.time()")])
M['c25-wrongcmp'] = (['C25'], [(HD, "self.records[0].created < limit", "self.records[0].created > limit")])
M['c25-last-age'] = (['C25'], [(HD, "self.records[0].created < limit", "self.records[-1].created < limit")])
M['c25-insert0'] = (['C25'], [(HD, "recs.append(self.records.pop(0))", "recs.insert(0, self.records.pop(0))")])
M['c25-one'] = (['C25'], [(HD, "                for rec in recs:\n                    logging.StreamHandler.emit(self, rec)\n            else:", "                logging.StreamHandler.emit(self, recs[-1])\n            else:")])
M['c25-gt1'] = (['C25'], [(HD, "if len(recs) > 0:", "if len(recs) > 1:")])
M['c25-exit-break'] = (['C25'], [(HD, "            else:\n                time.sleep(0.2)", "            else:\n                time.sleep(0.2)\n                if not threading.main_thread().is_alive():\n                    return")])
M['c25-noatexit'] = (['C25'], [(HD, "        atexit.register(self.flush_records)\n", "")])
M['c25-atexit-flush'] = (['C25'], [(HD, "atexit.register(self.flush_records)", "atexit.register(self.flush)")])
M['c25-nodaemon'] = (['C25'], [(HD, "target=self.poll_records, daemon=True", "target=self.poll_records")])
M['c25-late-list'] = (['C25'], [(HD, "        self.records = []\n        self.thread =", "        self.thread ="), (HD, "        atexit.register(self.flush_records)\n", "        self.records = []\n        atexit.register(self.flush_records)\n")])
M['c25-flush-noclear'] = (['C25'], [(HD, "            recs = self.records[:]\n            self.records = []\n", "            recs = self.records[:]\n")])
M['c25-flush-alias'] = (['C25'], [(HD, "            recs = self.records[:]\n            self.records = []\n", "            recs = self.records\n            self.records.clear()\n")])
M['c25-flush-split'] = (['C25'], [(HD, "            recs = self.records[:]\n            self.records = []\n", "            recs = self.records[:]\n        with self.record_lock:\n            self.records = []\n")])
M['c25-flush-part'] = (['C25'], [(HD, "recs = self.records[:]", "recs = self.records[-100:]")])
M['c25-flush-rev'] = (['C25'], [(HD, "            self.records = []\n        for rec in recs:", "            self.records = []\n        for rec in reversed(recs):")])
M['c25-cachekey'] = (['C25'], [(HD, "key = (hid, pid, tid)", "key = (pid, tid)")])
M['c25-header-host'] = (['C25'], [(HD, "header = '[%s:%s:%s]' % (hid, pid, tid)", "header = '[%s:%s]' % (pid, tid)")])
M['c25-header-own'] = (['C25'], [(HD, "tid = getattr(record, 'thread_name', get_thread_name(record.thread))", "tid = get_thread_name(record.thread)")])
M['c25-raise'] = (['C25'], [(HD, "                for rec in recs:\n                    logging.StreamHandler.emit(self, rec)\n            else:", "                for rec in recs:\n                    self.stream.write(self.format(rec) + self.terminator)\n                    self.flush()\n            else:")])
R['c25-take'] = ([], [(HD, "            recs = []\n            with self.record_lock:\n                while len(self.records) > 0 and self.records[0].created < limit:\n                    recs.append(self.records.pop(0))\n", "            recs = self._take(limit)\n"), (HD, "    def format(self, record):", "    def _take(self, limit):\n        recs = []\n        with self.record_lock:\n            while self.records and self.records[0].created < limit:\n                recs.append(self.records.pop(0))\n        return recs\n\n    def format(self, record):")])
R['c25-attrgetter'] = ([], [(HD, "key=lambda rec: rec.created", "key=operator.attrgetter('created')"), (HD, "import logging\nimport sys", "import logging\nimport operator\nimport sys")])
R['c25-if-recs'] = ([], [(HD, "            if len(recs) > 0:\n                for rec in recs:\n                    logging.StreamHandler.emit(self, rec)\n            else:\n                time.sleep(0.2)", "            if not recs:\n                time.sleep(0.2)\n                continue\n            for rec in recs:\n                super().emit(rec)")])
R['c25-flush-swap'] = ([], [(HD, "            recs = self.records[:]\n            self.records = []\n", "            recs, self.records = self.records, []\n")])
R['c25-flush-list'] = ([], [(HD, "            recs = self.records[:]\n            self.records = []\n", "            recs = list(self.records)\n            self.records.clear()\n")])
R['c25-age'] = ([], [(HD, "            limit = time.time() - self.delay\n", "            now = time.time()\n"), (HD, "self.records[0].created < limit", "now - self.records[0].created > self.delay")])
R['c25-acquire'] = ([], [(HD, "        with self.record_lock:\n            self.records.append(record)\n            self.records.sort(key=lambda rec: rec.created)", "        self.record_lock.acquire()\n        try:\n            self.records.append(record)\n            self.records.sort(key=lambda rec: rec.created)\n        finally:\n            self.record_lock.release()")])
R['c25-write-all'] = ([], [(HD, "                for rec in recs:\n                    logging.StreamHandler.emit(self, rec)\n            else:", "                self._write(recs)\n            else:"), (HD, "            self.records = []\n        for rec in recs:\n            logging.StreamHandler.emit(self, rec)\n", "            self.records = []\n        self._write(recs)\n\n    def _write(self, recs):\n        for rec in recs:\n            logging.StreamHandler.emit(self, rec)\n")])
R['c25-sorted'] = ([], [(HD, "            self.records.append(record)\n            self.records.sort(key=lambda rec: rec.created)", "            self.records.append(record)\n            self.records = sorted(self.records, key=lambda r: r.created)")])
R['c25-comp'] = ([], [(HD, "            recs = []\n            with self.record_lock:\n                while len(self.records) > 0 and self.records[0].created < limit:\n                    recs.append(self.records.pop(0))\n", "            with self.record_lock:\n                recs = [rec for rec in self.records if rec.created < limit]\n                self.records = self.records[len(recs):]\n")])

# ---- C26
TM = 'timer.py'
M['c26-nolock-stop'] = (['C26'], [(TM, "        with self._lock:\n            self.running = False\n        \n    def _run", "        self.running = False\n        \n    def _run")])
M['c26-nolock-check'] = (['C26'], [(TM, "                with self._lock:\n                    if not self.running:\n                        self.thread = None\n                        return\n                    self._last", "                if not self.running:\n                    with self._lock:\n                        self.thread = None\n                    return\n                with self._lock:\n                    self._last")])
M['c26-cb-locked'] = (['C26'], [(TM, "                    self._call_count += 1\n                    \n                callback()", "                    self._call_count += 1\n                    callback()")])
M['c26-limit-off'] = (['C26'], [(TM, "self._call_count >= self.limit", "self._call_count > self.limit")])
M['c26-limit-truthy'] = (['C26'], [(TM, "if self.limit is not None and self", "if self.limit and self")])
M['c26-count-late'] = (['C26'], [(TM, "                    self._call_count += 1\n                    \n                callback()", "                callback()\n                with self._lock:\n                    self._call_count += 1")])
M['c26-nocount'] = (['C26'], [(TM, "self._call_count += 1", "pass")])
M['c26-check-before-sleep'] = (['C26'], [(TM, "                    last_call_time = self._last_call_time\n", "                    last_call_time = self._last_call_time\n                    if not self.running:\n                        self.thread = None\n                        return\n"), (TM, "                with self._lock:\n                    if not self.running:\n                        self.thread = None\n                        return\n                    self._last", "                with self._lock:\n                    self._last")])
M['c26-last-after'] = (['C26'], [(TM, "                    last_call_time = self._last_call_time\n", "                    last_call_time = self._last_call_time\n                    now = time.perf_counter()\n"), (TM, "self._last_call_time = time.perf_counter()", "self._last_call_time = now")])
M['c26-sleep-half'] = (['C26'], [(TM, "sleep_time = self.interval - (time.perf_counter() - last_call_time)", "sleep_time = self.interval / 2 - (time.perf_counter() - last_call_time)")])
M['c26-sleep-cap'] = (['C26'], [(TM, "time.sleep(sleep_time)", "time.sleep(min(sleep_time, 1.0))")])
M['c26-sleep-sign'] = (['C26'], [(TM, "(time.perf_counter() - last_call_time)", "(time.perf_counter() + last_call_time)")])
M['c26-walltime'] = (['C26'], [(TM, "self.interval - (time.perf_counter() - last_call_time)", "self.interval - (time.time() - last_call_time)"), (TM, "self._last_call_time = time.perf_counter()", "self._last_call_time = time.time()")])
M['c26-nocopy'] = (['C26'], [(TM, "                callback = callback._copy()", "                pass")])
M['c26-alive'] = (['C26'], [(TM, "                    if self.limit is not None and self._call_count >= self.limit:\n                        self.running = False\n                        self.thread = None\n                        return", "                    if self.limit is not None and self._call_count >= self.limit:\n                        self.running = False\n                        return"), (TM, "            if self.thread is None:", "            if self.thread is None or not self.thread.is_alive():")])
M['c26-stop-thread'] = (['C26'], [(TM, "        with self._lock:\n            self.running = False\n        \n    def _run", "        with self._lock:\n            self.running = False\n            self.thread = None\n        \n    def _run")])
M['c26-nothread-check'] = (['C26'], [(TM, "            if self.thread is None:\n                self.thread = threading.Thread(target=self._run, daemon=True)\n                self.thread.start()", "            self.thread = threading.Thread(target=self._run, daemon=True)\n            self.thread.start()")])
M['c26-start-split'] = (['C26'], [(TM, "            # (the thread resets self.thread before it exits)\n            if self.thread is None:\n                self.thread = threading.Thread(target=self._run, daemon=True)\n                self.thread.start()", "            # (the thread resets self.thread before it exits)\n            if self.thread is not None:\n                return\n        thread = threading.Thread(target=self._run, daemon=True)\n        with self._lock:\n            self.thread = thread\n        thread.start()")])
M['c26-noreset'] = (['C26'], [(TM, "            self._last_call_time = None\n            self._call_count = 0\n            \n            # (the", "            self._last_call_time = None\n            \n            # (the")])
M['c26-start-early'] = (['C26'], [(TM, "        if self.running:" if False else "            self.running = True\n            self._last_call_time = None", "            if self.running:\n                return\n            self._last_call_time = None"), ])
M['c26-except-pass'] = (['C26'], [(TM, "        except:\n            with self._lock:\n                self.running = False\n                self.thread = None\n            raise", "        finally:\n            pass")])
M['c26-except-exc'] = (['C26'], [(TM, "        except:\n", "        except Exception:\n")])
M['c26-exit-region'] = (['C26'], [(TM, "                    if not self.running:\n                        self.thread = None\n                        return\n", "                    running = self.running\n                if not running:\n                    with self._lock:\n                        self.thread = None\n                    return\n                with self._lock:\n")])
M['c26-limit-region'] = (['C26'], [(TM, "                    if self.limit is not None and self._call_count >= self.limit:\n                        self.running = False\n                        self.thread = None\n                        return\n", "                    done = self.limit is not None and self._call_count >= self.limit\n                if done:\n                    with self._lock:\n                        self.running = False\n                        self.thread = None\n                    return\n                with self._lock:\n")])
M['c26-twice'] = (['C26'], [(TM, "                callback()\n", "                try:\n                    callback()\n                except TimeoutError:\n                    callback()\n")])
M['c26-autostart'] = (['C26'], [(TM, "        if start:\n", "        if start or limit is not None:\n")])
R['c26-should'] = ([], [(TM, "                    if self.limit is not None and self._call_count >= self.limit:\n", "                    if self._limit_reached():\n"), (TM, "    def _run(self):", "    def _limit_reached(self):\n        return self.limit is not None and not self._call_count < self.limit\n\n    def _run(self):")])
R['c26-wait'] = ([], [(TM, "                if last_call_time is None:\n                    sleep_time = 0\n                else:\n                    sleep_time = self.interval - (time.perf_counter() - last_call_time)\n                \n                if sleep_time > 0:\n                    time.sleep(sleep_time)\n", "                if last_call_time is not None:\n                    elapsed = time.perf_counter() - last_call_time\n                    if elapsed < self.interval:\n                        time.sleep(self.interval - elapsed)\n")])
R['c26-max'] = ([], [(TM, "                if sleep_time > 0:\n                    time.sleep(sleep_time)\n", "                time.sleep(max(0, sleep_time))\n")])
R['c26-tick'] = ([], [(TM, "                with self._lock:\n                    if not self.running:\n                        self.thread = None\n                        return\n                    self._last_call_time = time.perf_counter()\n                    self._call_count += 1\n                    \n                callback()", "                if not self._begin():\n                    return\n                callback()"), (TM, "    def _run(self):", "    def _begin(self):\n        with self._lock:\n            if not self.running:\n                self.thread = None\n                return False\n            self._last_call_time = time.perf_counter()\n            self._call_count = self._call_count + 1\n            return True\n\n    def _run(self):")])
R['c26-finally'] = ([], [(TM, "        except:\n            with self._lock:\n                self.running = False\n                self.thread = None\n            raise", "        except BaseException:\n            self._ended()\n            raise"), (TM, "    def _run(self):", "    def _ended(self):\n        with self._lock:\n            self.thread = None\n            self.running = False\n\n    def _run(self):")])
R['c26-due'] = ([], [(TM, "                    sleep_time = self.interval - (time.perf_counter() - last_call_time)", "                    due = last_call_time + self.interval\n                    sleep_time = due - time.perf_counter()")])
R['c26-start-local'] = ([], [(TM, "                self.thread = threading.Thread(target=self._run, daemon=True)\n                self.thread.start()", "                thread = threading.Thread(target=self._run)\n                thread.daemon = True\n                self.thread = thread\n                thread.start()")])

SH = 'shmem.py'
Z = "        shmem = mp_shm.SharedMemory(create=True, size=int(np.prod(shape)) * np.dtype(dtype).itemsize)\n"
C = "        shmem = mp_shm.SharedMemory(create=True, size=arr.nbytes)\n"
L = """    for arr in all_shmem:
        if arr.close:
            arr.shmem.close()
            try:
                arr.shmem.unlink()
            except FileNotFoundError:
                pass
"""
RE = "        return SharedNDArray.__reload__, (self.shmem, self.data.shape, self.data.dtype, self.data.strides)"
RL = "        arr = np.ndarray(shape, dtype=dtype, buffer=shmem.buf, strides=strides)\n        return SharedNDArray(shmem, arr)"
M['c27-size-items'] = (['C27'], [(SH, Z, Z.replace(" * np.dtype(dtype).itemsize", " * 8"))])
M['c27-size-prod'] = (['C27'], [(SH, Z, Z.replace("int(np.prod(shape)) *", "len(shape) *"))])
M['c27-size-copy'] = (['C27'], [(SH, C, C.replace("arr.nbytes", "arr.size"))])
M['c27-size-minus'] = (['C27'], [(SH, C, C.replace("arr.nbytes", "arr.nbytes - 1"))])
M['c27-size-first'] = (['C27'], [(SH, C, C.replace("arr.nbytes", "arr.shape[0] * arr.itemsize"))])
M['c27-size-strides'] = (['C27'], [(SH, C, C.replace("arr.nbytes", "arr.strides[0] * len(arr)"))])
M['c27-fill-one'] = (['C27'], [(SH, "data.fill(0)", "data.fill(1)")])
M['c27-fill-nan'] = (['C27'], [(SH, "        data.fill(0)\n", "        data.fill(np.nan if data.dtype.kind == 'f' else 0)\n")])
M['c27-dtype-zeros'] = (['C27'], [(SH, "data = np.ndarray(shape, dtype=dtype, buffer=shmem.buf)\n        data.fill", "data = np.ndarray(shape, buffer=shmem.buf)\n        data.fill")])
M['c27-buffer'] = (['C27'], [(SH, "dtype=arr.dtype, buffer=shmem.buf)", "dtype=arr.dtype)")])
M['c27-copy-part'] = (['C27'], [(SH, "data[...] = arr", "data[0] = arr[0]")])
M['c27-copy-flat'] = (['C27'], [(SH, "np.ndarray(arr.shape, dtype=arr.dtype", "np.ndarray(arr.size, dtype=arr.dtype"), (SH, "data[...] = arr", "data[...] = arr.ravel()")])
M['c27-copy-none'] = (['C27'], [(SH, "        data[...] = arr\n", "")])
M['c27-close-true'] = (['C27'], [(SH, "data[...] = arr\n        return cls(shmem, data, close)", "data[...] = arr\n        return cls(shmem, data, True)")])
M['c27-close-lost'] = (['C27'], [(SH, "data.fill(0)\n        return cls(shmem, data, close)", "data.fill(0)\n        return cls(shmem, data)")])
M['c27-close-default'] = (['C27'], [(SH, "def zeros(cls, shape, dtype, close=True)", "def zeros(cls, shape, dtype, close=False)")])
M['c27-init-default'] = (['C27'], [(SH, "def __init__(self, shmem, data, close=False)", "def __init__(self, shmem, data, close=True)")])
M['c27-reduce-strides'] = (['C27'], [(SH, ", self.data.strides)", ", None)")])
M['c27-reduce-swap'] = (['C27'], [(SH, "shape, dtype=dtype, buffer=shmem.buf, strides=strides", "shape, dtype=dtype, buffer=shmem.buf")])
M['c27-reduce-str'] = (['C27'], [(SH, "self.data.dtype, self", "self.data.dtype.char, self")])
M['c27-reduce-copy'] = (['C27'], [(SH, RL, "        arr = np.ndarray(shape, dtype=dtype, buffer=shmem.buf, strides=strides)\n        return SharedNDArray.copy(arr, close=False)")])
M['c27-reload-close'] = (['C27'], [(SH, "return SharedNDArray(shmem, arr)", "return SharedNDArray(shmem, arr, close=True)")])
M['c27-reduce-close'] = (['C27'], [(SH, "self.data.strides)", "self.data.strides, self.close)"), (SH, "def __reload__(cls, shmem, shape, dtype, strides)", "def __reload__(cls, shmem, shape, dtype, strides, close)"), (SH, "return SharedNDArray(shmem, arr)", "return SharedNDArray(shmem, arr, close)")])
M['c27-reload-fill'] = (['C27'], [(SH, "strides=strides)\n", "strides=strides)\n        arr.fill(0)\n")])
M['c27-all-unlink'] = (['C27'], [(SH, L, L.replace("        if arr.close:\n            arr.shmem.close()\n            try:\n                arr.shmem.unlink()\n            except FileNotFoundError:\n                pass\n", "        arr.shmem.close()\n        if arr.close:\n            arr.shmem.unlink()\n"))])
M['c27-all-tolerate'] = (['C27'], [(SH, L, L.replace("            try:\n                arr.shmem.unlink()\n            except FileNotFoundError:\n                pass\n", "            arr.shmem.unlink()\n"))])
M['c27-all-return'] = (['C27'], [(SH, "except FileNotFoundError:\n                pass", "except FileNotFoundError:\n                break")])
M['c27-all-tryfor'] = (['C27'], [(SH, L, "    try:\n        for arr in all_shmem:\n            if arr.close:\n                arr.shmem.close()\n                arr.shmem.unlink()\n    except FileNotFoundError:\n        pass\n")])
M['c27-all-nounlink'] = (['C27'], [(SH, "                arr.shmem.unlink()\n", "                arr.shmem.buf.release()\n")])
M['c27-all-weak'] = (['C27'], [(SH, "all_shmem = []\n\nclass", "import weakref\nall_shmem = weakref.WeakSet()\n\nclass"), (SH, "all_shmem.append(self)", "all_shmem.add(self)"), (SH, "    all_shmem = []\n\natexit", "    all_shmem = weakref.WeakSet()\n\natexit")])
M['c27-list'] = (['C27'], [(SH, "        all_shmem.append(self)\n", "        if len(all_shmem) < 1000:\n            all_shmem.append(self)\n")])
M['c27-empty-first'] = (['C27'], [(SH, L, "    all_shmem.clear()\n" + L)])
M['c27-atexit'] = (['C27'], [(SH, "atexit.register(close_all)", "if __name__ == '__main__':\n    atexit.register(close_all)")])
M['c27-inverted'] = (['C27'], [(SH, "if arr.close:", "if not arr.close:")])
M['c27-skip-last'] = (['C27'], [(SH, "for arr in all_shmem:", "for arr in all_shmem[:-1]:")])
R['c27-alloc'] = ([], [(SH, "    @classmethod\n    def zeros(", "    @classmethod\n    def _allocate(cls, shape, dtype, close):\n        dtype = np.dtype(dtype)\n        shmem = mp_shm.SharedMemory(create=True, size=max(1, int(np.prod(shape)) * dtype.itemsize))\n        return cls(shmem, np.ndarray(shape, dtype, shmem.buf), close)\n\n    @classmethod\n    def zeros("),
    (SH, Z + "        data = np.ndarray(shape, dtype=dtype, buffer=shmem.buf)\n        data.fill(0)\n        return cls(shmem, data, close)", "        arr = cls._allocate(shape, dtype, close)\n        arr.data[...] = 0\n        return arr"),
    (SH, C + "        data = np.ndarray(arr.shape, dtype=arr.dtype, buffer=shmem.buf)\n        data[...] = arr\n        return cls(shmem, data, close)", "        new = cls._allocate(arr.shape, arr.dtype, close)\n        np.copyto(new.data, arr)\n        return new")])
R['c27-copy-zeros'] = ([], [(SH, C + "        data = np.ndarray(arr.shape, dtype=arr.dtype, buffer=shmem.buf)\n        data[...] = arr\n        return cls(shmem, data, close)", "        shared = cls.zeros(arr.shape, arr.dtype, close)\n        shared.data[:] = arr\n        return shared") ])
R['c27-filter'] = ([], [(SH, L, "    for arr in [a for a in all_shmem if a.close]:\n        _free(arr.shmem)\n"), (SH, "def close_all():", "def _free(shmem):\n    shmem.close()\n    try:\n        shmem.unlink()\n    except FileNotFoundError:\n        pass\n\n\ndef close_all():")])
R['c27-continue'] = ([], [(SH, L, "    for arr in list(all_shmem):\n        if not arr.close:\n            continue\n        arr.shmem.close()\n        try:\n            arr.shmem.unlink()\n        except FileNotFoundError:\n            pass\n"), (SH, "    all_shmem = []\n\natexit", "    all_shmem.clear()\n\natexit"), (SH, "    global all_shmem\n", "")])
R['c27-swap'] = ([], [(SH, L, "    arrays, all_shmem = all_shmem, []\n" + L.replace("in all_shmem", "in arrays")), (SH, "                pass\n    all_shmem = []\n", "                pass\n")])
R['c27-method'] = ([], [(SH, "            arr.shmem.close()\n            try:\n                arr.shmem.unlink()\n            except FileNotFoundError:\n                pass\n", "            arr._free()\n"), (SH, "    def __reduce__(self):", "    def _free(self):\n        self.shmem.close()\n        with contextlib.suppress(FileNotFoundError):\n            self.shmem.unlink()\n\n    def __reduce__(self):"), (SH, "import atexit\n", "import atexit\nimport contextlib\n")])
R['c27-reduce'] = ([], [(SH, RE, "        data = self.data\n        return type(self).__reload__, (self.shmem, data.shape, data.dtype, data.strides)"), (SH, RL, "        arr = np.ndarray(shape, dtype, shmem.buf, 0, strides)\n        return cls(shmem, arr, close=False)")])
R['c27-reduce-func'] = ([], [(SH, RE, "        return _reload, (self.shmem, self.data.shape, self.data.strides, self.data.dtype)"), (SH, "def close_all():", "def _reload(shmem, shape, strides, dtype):\n    return SharedNDArray(shmem, np.ndarray(shape, dtype=dtype, buffer=shmem.buf, strides=strides))\n\n\ndef close_all():")])
R['c27-decorator'] = ([], [(SH, "def close_all():", "@atexit.register\ndef close_all():"), (SH, "\natexit.register(close_all)", "\n")])
R['c27-nbytes'] = ([], [(SH, "arr.nbytes", "arr.size * arr.itemsize")])

QP = 'qt_poll_thread.py'
QS = 'qt_server.py'
FW = "                self.rpc_socket.send_multipart([name, data])\n"
RD = "                name, msg = RPCServer._read_one(self.rpc_socket)\n                #logger.debug(\"poller recv %s %s\", name, msg)\n                if msg is not None:\n                    self.new_request.emit(name, msg)\n"
CN = "        self.new_request.connect(server._process_one)"
M['c28-direct'] = (['C28'], [(QP, CN, "        self.new_request.connect(server._process_one, qt.Qt.DirectConnection)")])
M['c28-process'] = (['C28'], [(QP, "                    self.new_request.emit(name, msg)", "                    if msg['action'] == 'ping':\n                        self.server._process_one(name, msg)\n                    else:\n                        self.new_request.emit(name, msg)")])
M['c28-noreply'] = (['C28'], [(QP, "                if msg is not None:\n", "                if msg is not None and self.server.running():\n")])
M['c28-twice'] = (['C28'], [(QP, CN, CN + "\n        self.new_request.connect(server._process_one)")])
M['c28-emit-name'] = (['C28'], [(QP, "self.new_request.emit(name, msg)", "self.new_request.emit(name.decode(), msg)")])
M['c28-emit-opts'] = (['C28'], [(QP, "self.new_request.emit(name, msg)", "self.new_request.emit(name, dict(msg, ser_type='msgpack'))")])
M['c28-drop'] = (['C28'], [(QP, FW, "                if data:\n                    self.rpc_socket.send_multipart([name, data])\n")])
M['c28-swap'] = (['C28'], [(QP, FW, "                self.rpc_socket.send_multipart([data, name])\n")])
M['c28-frame'] = (['C28'], [(QP, FW, "                self.rpc_socket.send_multipart([name, b'', data])\n")])
M['c28-stop-word'] = (['C28'], [(QP, "[b'STOP', b'']", "[b'stop', b'']")])
M['c28-stop-frames'] = (['C28'], [(QP, "[b'STOP', b'']", "[b'STOP']")])
M['c28-stop-socket'] = (['C28'], [(QP, "self.server._socket.send_multipart([b'STOP', b''])", "self.rpc_socket.close()")])
M['c28-stop-flag'] = (['C28'], [(QP, "        self.server._socket.send_multipart([b'STOP', b''])", "        self._stop = True"), (QP, "        while True:", "        while not self._stop:"), (QP, "        self.server = server\n", "        self.server = server\n        self._stop = False\n"), (QP, "                if name == b'STOP':\n                    break\n", "")])
M['c28-noclose'] = (['C28'], [(QP, "        self.rpc_socket.close()\n", "")])
M['c28-noclose2'] = (['C28'], [(QP, "        self.return_socket.close()\n", "")])
M['c28-stop-return'] = (['C28'], [(QP, "                if name == b'STOP':\n                    break\n", "                if name == b'STOP':\n                    return\n")])
M['c28-running'] = (['C28'], [(QP, "        while True:\n            # Note", "        while self.server.running():\n            # Note")])
M['c28-inner'] = (['C28'], [(QP, "            if self.return_socket in socks:\n                name, data", "            while self.return_socket in socks:\n                name, data"), (QP, FW, FW + "                socks = dict(poller.poll(timeout=0))\n")])
M['c28-poller'] = (['C28'], [(QP, "        poller.register(self.return_socket, zmq.POLLIN)\n", "")])
M['c28-pollout'] = (['C28'], [(QP, "poller.register(self.rpc_socket, zmq.POLLIN)", "poller.register(self.rpc_socket, zmq.POLLERR)")])
M['c28-addr'] = (['C28'], [(QP, "server._socket.connect(return_addr)", "server._socket.connect('inproc://%x' % id(server))")])
M['c28-shared'] = (['C28'], [(QP, "        server._socket = context.socket(zmq.PAIR)\n        server._socket.linger = 1000  # don't let socket deadlock when exiting\n        server._socket.connect(return_addr)\n", "        server._return_socket = context.socket(zmq.PAIR)\n        server._return_socket.linger = 1000\n        server._return_socket.connect(return_addr)\n")])
M['c28-final'] = (['C28'], [(QS, "        time.sleep(0.1)", "        time.sleep(0.1)\n        self.poll_thread.rpc_socket.close()")])
M['c28-serve'] = (['C28'], [(QS, "        self.poll_thread.start()", "        self.poll_thread.start()\n        while self.running():\n            self._read_and_process_one()")])
M['c28-run'] = (['C28'], [(QS, "self.poll_thread.start()", "self.poll_thread.run()")])
M['c28-action'] = (['C28'], [(QS, "            #self.poll_thread.stop()\n", "            #self.poll_thread.stop()\n            return\n")])
M['c28-quit'] = (['C28'], [(QS, "            if self.quit_on_close:\n                # Qt import deferred\n                from teleprox import qt\n                qt.QApplication.instance().quit()\n", "            pass\n        if self.quit_on_close:\n            from teleprox import qt\n            qt.QApplication.instance().quit()\n")])
M['c28-keep'] = (['C28'], [(QS, "        self.quit_on_close = quit_on_close        \n", "        self.quit_on_close = quit_on_close\n        self.network_socket = self._socket\n")])
M['c28-lambda'] = (['C28'], [(QP, CN, "        self.new_request.connect(lambda caller, msg: server._process_one(msg, caller))")])
M['c28-elif-lost'] = (['C28'], [(QP, RD, "                name, msg = RPCServer._read_one(self.rpc_socket)\n                if msg is not None and msg['action'] != 'ping':\n                    self.new_request.emit(name, msg)\n")])
M['c28-drain-lost'] = (['C28'], [(QP, RD, "                name, msg = RPCServer._read_one(self.rpc_socket)\n                while self.rpc_socket.poll(0):\n                    name, msg = RPCServer._read_one(self.rpc_socket)\n                if msg is not None:\n                    self.new_request.emit(name, msg)\n")])
R['c28-elif'] = ([], [(QP, "            if self.rpc_socket in socks:", "            elif self.rpc_socket in socks:")])
R['c28-whole'] = ([], [(QP, "                name, data = self.return_socket.recv_multipart()\n", "                parts = self.return_socket.recv_multipart()\n"), (QP, "if name == b'STOP':", "if parts[0] == b'STOP':"), (QP, FW, "                self.rpc_socket.send_multipart(parts)\n")])
R['c28-methods'] = ([], [(QP, "                name, data = self.return_socket.recv_multipart()\n                #logger.debug(\"poller return %s %s\", name, data)\n                if name == b'STOP':\n                    break\n" + FW, "                if not self._forward_reply():\n                    break\n"), (QP, RD, "                self._forward_request()\n"),
    (QP, "    def stop(self):", "    def _forward_reply(self):\n        name, data = self.return_socket.recv_multipart()\n        if name == b'STOP':\n            return False\n        self.rpc_socket.send_multipart([name, data])\n        return True\n\n    def _forward_request(self):\n        name, msg = RPCServer._read_one(self.rpc_socket)\n        if msg is None:\n            return\n        self.new_request.emit(name, msg)\n\n    def stop(self):")])
R['c28-const'] = ([], [(QP, "class QtPollThread", "STOP = b'STOP'\n\n\nclass QtPollThread"), (QP, "name == b'STOP'", "name == STOP"), (QP, "[b'STOP', b'']", "[STOP, b'']")])
R['c28-finally'] = ([], [(QP, "    def run(self):\n", "    def run(self):\n        try:\n            self._poll()\n        finally:\n            self.rpc_socket.close()\n            self.return_socket.close()\n\n    def _poll(self):\n"), (QP, "        self.rpc_socket.close()\n        self.return_socket.close()\n        #logger", "        #logger")])
R['c28-running'] = ([], [(QP, "        while True:\n", "        running = True\n        while running:\n"), (QP, "                if name == b'STOP':\n                    break\n" + FW, "                if name == b'STOP':\n                    running = False\n                    continue\n" + FW)])
R['c28-slot'] = ([], [(QP, CN, "        self.new_request.connect(self._on_request)\n\n    def _on_request(self, caller, msg):\n        # runs in the Qt thread\n        self.server._process_one(caller, msg)\n")])
R['c28-queued'] = ([], [(QP, CN, "        self.new_request.connect(server._process_one, qt.Qt.QueuedConnection)")])
R['c28-rename'] = ([], [(QP, "        self.rpc_socket = server._socket\n", "        self._net = server._socket\n"), (QP, "poller.register(self.rpc_socket,", "poller.register(self._net,"), (QP, FW, "                self._net.send_multipart([name, data])\n"), (QP, "            if self.rpc_socket in socks:\n                name, msg = RPCServer._read_one(self.rpc_socket)", "            if self._net in socks:\n                name, msg = RPCServer._read_one(self._net)"), (QP, "        self.rpc_socket.close()", "        self._net.close()")])
R['c28-pairsock'] = ([], [(QP, "        self.return_socket = context.socket(zmq.PAIR)\n        self.return_socket.linger = 1000  # don't let socket deadlock when exiting\n        self.return_socket.bind(return_addr)\n", "        self.return_socket = self._pair(context)\n        self.return_socket.bind(return_addr)\n"), (QP, "        server._socket = context.socket(zmq.PAIR)\n        server._socket.linger = 1000  # don't let socket deadlock when exiting\n        server._socket.connect(return_addr)\n", "        sock = self._pair(context)\n        sock.connect(return_addr)\n        server._socket = sock\n"), (QP, "    def run(self):", "    @staticmethod\n    def _pair(context):\n        sock = context.socket(zmq.PAIR)\n        sock.linger = 1000\n        return sock\n\n    def run(self):")])
R['c28-locals'] = ([], [(QP, "        poller = zmq.Poller()\n        poller.register(self.rpc_socket, zmq.POLLIN)\n        poller.register(self.return_socket, zmq.POLLIN)\n", "        poller = zmq.Poller()\n        for sock in (self.rpc_socket, self.return_socket):\n            poller.register(sock, zmq.POLLIN)\n")])
R['c28-super'] = ([], [(QS, "return RPCServer.process_action(self, action, opts, return_type, caller)", "return super().process_action(action, opts, return_type, caller)"), (QS, "        if action == 'close':\n            if self.quit_on_close:\n                # Qt", "        if action == 'close' and self.quit_on_close:\n                # Qt")])
R['c28-drain'] = ([], [(QP, "            if self.return_socket in socks:\n                name, data", "            while self.return_socket in socks:\n                name, data"), (QP, "                    break\n" + FW, "                    self.rpc_socket.close()\n                    self.return_socket.close()\n                    return\n" + FW + "                socks = dict(poller.poll(timeout=0))\n")])

QU = 'qt_util.py'
SE = 'serializer.py'
M['c29-f1'] = (['C29'], [(QU, "    if not HAVE_QT:\n        for qt_lib in qt_lib_order:", "    if HAVE_QT is None:\n        for qt_lib in qt_lib_order:")])
M['c29-f2'] = (['C29'], [(QU, "    namespace = {}\n", "    qt_namespace = {}\n    namespace = qt_namespace\n"), (QU, "    qt_namespace = namespace\n", "")])
M['c29-ser-import'] = (['C29'], [(SE, "if qt_util.HAVE_QT:\n    from . import qt\n", "try:\n    from . import qt\nexcept ImportError:\n    pass\nif qt_util.HAVE_QT:\n")])
M['c29-srv-import'] = (['C29'], [(QS, "from . import log\n", "from . import log\nfrom .qt_poll_thread import QtPollThread\n"), (QS, "        from .qt_poll_thread import QtPollThread\n", "")])
M['c29-client-top'] = (['C29'], [('client.py', "                from .qt import QApplication\n", ""), ('client.py', "from .qt_server import QtRPCServer\n", "from .qt_server import QtRPCServer\nfrom .qt import QApplication\n")])
M['c29-boot'] = (['C29'], [('bootstrap.py', "    if conf['qt']:\n        from teleprox import qt\n", "    from teleprox import qt\n    if conf['qt']:\n")])
M['c29-viewer'] = (['C29'], [('log/__init__.py', "from .remote import", "from .logviewer import LogViewer\nfrom .remote import")])
M['c29-wait'] = (['C29'], [('client.py', "            poller = self._get_poller()\n            if poller is None:\n", "            poller = self._get_poller()\n            from .qt import QApplication\n            if poller is None:\n")])
M['c29-check-import'] = (['C29'], [(QU, "\n\ncheck_qt_imported()\n", "\n\ntry:\n    importlib.import_module('PyQt5.QtCore')\nexcept ImportError:\n    pass\ncheck_qt_imported()\n")])
M['c29-norefuse'] = (['C29'], [(QU, "    if HAVE_QT is True and qt_lib is not None and qt_lib != QT_LIB:\n", "    if HAVE_QT is True and qt_lib is not None and qt_lib not in qt_lib_order:\n")])
M['c29-refuse-late'] = (['C29'], [(QU, "    if HAVE_QT is True and qt_lib is not None and qt_lib != QT_LIB:\n        raise ValueError(f'Already imported Qt library: {QT_LIB}')    \n\n    if qt_namespace is not None:\n        return qt_namespace\n", "    if qt_namespace is not None:\n        return qt_namespace\n\n    if HAVE_QT is True and qt_lib is not None and qt_lib != QT_LIB:\n        raise ValueError(f'Already imported Qt library: {QT_LIB}')    \n")])
M['c29-nocheck'] = (['C29'], [(QU, "    if not HAVE_QT:\n        check_qt_imported()\n\n", "")])
M['c29-order'] = (['C29'], [(QU, "['PyQt6', 'PySide6', 'PyQt5', 'PySide2']", "['PyQt5', 'PySide2', 'PyQt6', 'PySide6']")])
M['c29-nobreak'] = (['C29'], [(QU, "                QT_LIB = qt_lib\n                break\n            except", "                QT_LIB = qt_lib\n            except")])
M['c29-core-only'] = (['C29'], [(QU, "if qt_lib+'.QtCore' in sys.modules or qt_lib+'.QtGui' in sys.modules or qt_lib+'.QtWidgets' in sys.modules:", "if qt_lib+'.QtGui' in sys.modules or qt_lib+'.QtWidgets' in sys.modules:")])
M['c29-prefer'] = (['C29'], [(QU, "        for qt_lib in qt_lib_order:\n            if qt_lib+'.QtCore'", "        for qt_lib in qt_lib_order[:3]:\n            if qt_lib+'.QtCore'")])
M['c29-none-ret'] = (['C29'], [(QU, "    if not HAVE_QT:\n        raise ImportError(f'No importable Qt library found (tried {\", \".join(qt_libs)})')\n", "    if not HAVE_QT:\n        return {}\n")])
M['c29-none-exc'] = (['C29'], [(QU, "raise ImportError(f'No imp", "raise RuntimeError(f'No imp")])
M['c29-first-only'] = (['C29'], [(QU, "            except ImportError:\n                pass\n\n    if not", "            except ImportError:\n                break\n\n    if not")])
M['c29-ignored'] = (['C29'], [(QU, "qt_libs = qt_lib_order if qt_lib is None else [qt_lib]", "qt_libs = qt_lib_order if qt_lib is None else [qt_lib] + qt_lib_order")])
M['c29-sticky'] = (['C29'], [(QU, "    if not HAVE_QT:\n        HAVE_QT = False\n", "    if HAVE_QT is None:\n        HAVE_QT = False\n")])
M['c29-gui'] = (['C29'], [(QU, "    qtgui = importlib.import_module(QT_LIB + '.QtGui')\n    namespace.update(qtgui.__dict__)\n", "    try:\n        qtgui = importlib.import_module(QT_LIB + '.QtGui')\n        namespace.update(qtgui.__dict__)\n    except ImportError:\n        pass\n")])
M['c29-lost'] = (['C29'], [(QU, "    namespace.update(qtwidgets.__dict__)\n", "")])
R['c29-any'] = ([], [(QU, "if qt_lib+'.QtCore' in sys.modules or qt_lib+'.QtGui' in sys.modules or qt_lib+'.QtWidgets' in sys.modules:", "if any(f'{qt_lib}.{mod}' in sys.modules for mod in ('QtCore', 'QtGui', 'QtWidgets')):")])
R['c29-helper'] = ([], [(QU, "if qt_lib+'.QtCore' in sys.modules or qt_lib+'.QtGui' in sys.modules or qt_lib+'.QtWidgets' in sys.modules:", "if _is_imported(qt_lib):"), (QU, "def check_qt_imported():", "def _is_imported(lib):\n    for mod in ('.QtCore', '.QtGui', '.QtWidgets'):\n        if lib + mod in sys.modules:\n            return True\n    return False\n\n\ndef check_qt_imported():")])
R['c29-loop'] = ([], [(QU, "    qtcore = importlib.import_module(QT_LIB + '.QtCore')\n    namespace.update(qtcore.__dict__)\n    qtgui = importlib.import_module(QT_LIB + '.QtGui')\n    namespace.update(qtgui.__dict__)\n    qtwidgets = importlib.import_module(QT_LIB + '.QtWidgets')\n    namespace.update(qtwidgets.__dict__)\n", "    for mod in ('QtCore', 'QtGui', 'QtWidgets'):\n        namespace.update(vars(importlib.import_module('%s.%s' % (QT_LIB, mod))))\n")])
R['c29-first'] = ([], [(QU, "    if not HAVE_QT:\n        HAVE_QT = False\n        for qt_lib in qt_libs:\n            try:\n                importlib.import_module(qt_lib+'.QtCore')\n                HAVE_QT = True\n                QT_LIB = qt_lib\n                break\n            except ImportError:\n                pass\n", "    if not HAVE_QT:\n        found = _first_importable(qt_libs)\n        HAVE_QT = found is not None\n        if HAVE_QT:\n            QT_LIB = found\n"), (QU, "qt_namespace = None\n", "def _first_importable(libs):\n    for lib in libs:\n        try:\n            importlib.import_module(lib + '.QtCore')\n        except ImportError:\n            continue\n        return lib\n    return None\n\n\nqt_namespace = None\n")])
R['c29-modnotfound'] = ([], [(QU, "    if HAVE_QT is True and qt_lib is not None and qt_lib != QT_LIB:\n", "    if HAVE_QT and qt_lib not in (None, QT_LIB):\n")])
R['c29-client-help'] = ([], [('client.py', "                from .qt import QApplication\n                QApplication.processEvents()\n", "                self._process_qt_events()\n"), ('client.py', "    def _get_poller(self):", "    def _process_qt_events(self):\n        from .qt import QApplication\n        QApplication.processEvents()\n\n    def _get_poller(self):")])
R['c29-boot-help'] = ([], [('bootstrap.py', "        from teleprox import qt\n        app = qt.QApplication([])\n", "        import teleprox.qt\n        app = teleprox.qt.QApplication([])\n")])
R['c29-ser'] = ([], [(SE, "if qt_util.HAVE_QT:\n    from . import qt\n", "if qt_util.check_qt_imported():\n    from . import qt\n")])
# ---- C30
UT = 'util.py'
M['c30-line'] = (['C30'], [(UT, "            if search in cmd:\n", "            if search in line:\n")])
M['c30-startswith'] = (['C30'], [(UT, "            if search in cmd:\n", "            if search.split()[0] in cmd:\n")])
M['c30-nostrip'] = (['C30'], [(UT, "line.lstrip().partition(' ')", "line.partition(' ')")])
M['c30-all'] = (['C30'], [(UT, "            if search in cmd:\n", "            if cmd:\n")])
M['c30-noempty'] = (['C30'], [(UT, "    if search == '':\n        raise ValueError(\"search string must not be empty (it would match every process)\")\n", "")])
M['c30-none'] = (['C30'], [(UT, "    if search == '':\n", "    if search is None:\n")])
M['c30-late'] = (['C30'], [(UT, "    if search == '':\n        raise ValueError(\"search string must not be empty (it would match every process)\")\n", ""), (UT, "        kill_pid(pid)\n    return procs\n", "        kill_pid(pid)\n    if search == '':\n        raise ValueError(\"search string must not be empty\")\n    return procs\n")])
M['c30-old'] = (['C30'], [(UT, "    time.sleep(wait)  # wait a little longer for cleanup..\n    procs = find_procs(search)\n    if not procs:\n        return []\n", "    time.sleep(wait)  # wait a little longer for cleanup..\n    if not find_procs(search):\n        return []\n")])
M['c30-group'] = (['C30'], [(UT, "    for pid, line in procs:\n        kill_pid(pid)\n", "    for pid, line in procs:\n        os.killpg(os.getpgid(pid), signal.SIGKILL)\n")])
M['c30-pkill'] = (['C30'], [(UT, "    for pid, line in procs:\n        kill_pid(pid)\n", "    subprocess.call(['pkill', '-9', '-f', search])\n")])
M['c30-parent'] = (['C30'], [(UT, "    for pid, line in procs:\n        kill_pid(pid)\n", "    for pid, line in procs:\n        kill_pid(os.getpid() if pid == 1 else pid)\n")])
M['c30-neg'] = (['C30'], [(UT, "    os.kill(pid, sig)\n", "    os.kill(-pid, sig)\n")])
M['c30-ret-empty'] = (['C30'], [(UT, "        kill_pid(pid)\n    return procs\n", "        kill_pid(pid)\n    return []\n")])
M['c30-ret-after'] = (['C30'], [(UT, "        kill_pid(pid)\n    return procs\n", "        kill_pid(pid)\n    return find_procs(search)\n")])
M['c30-break'] = (['C30'], [(UT, "            kill_pid(pid)\n            killed.append(pid)\n", "            kill_pid(pid)\n            killed.append(pid)\n            break\n")])
M['c30-break-dead'] = (['C30'], [(UT, "        except (OSError, ProcessLookupError):\n            pass\n", "        except (OSError, ProcessLookupError):\n            break\n")])
M['c30-norecord'] = (['C30'], [(UT, "            killed.append(pid)\n", "            killed = []\n")])
M['c30-try-all'] = (['C30'], [(UT, "    for pid in pids:\n        try:\n            kill_pid(pid)\n            killed.append(pid)\n        except (OSError, ProcessLookupError):\n            pass\n", "    try:\n        for pid in pids:\n            kill_pid(pid)\n            killed.append(pid)\n    except (OSError, ProcessLookupError):\n        pass\n")])
M['c30-assertall'] = (['C30'], [(UT, "    if killed:\n        assert", "    if len(killed) == len(pids):\n        assert")])
M['c30-log'] = (['C30'], [(UT, "        assert False, f\"Process(es) {killed} should have exited before this point\"\n", "        print(f\"Process(es) {killed} should have exited before this point\")\n")])
M['c30-clean-first'] = (['C30'], [(UT, "                failures.append(name)\n", "                failures.append(name)\n                break\n")])
M['c30-clean-swallow'] = (['C30'], [(UT, "            return False  # process", "            return exc is not None  # process")])
M['c30-clean-replace'] = (['C30'], [(UT, "        if len(failures) > 0 and exc is None:\n", "        if len(failures) > 0:\n")])
M['c30-clean-two'] = (['C30'], [(UT, "        if len(failures) > 0 and exc is None:\n", "        if len(failures) > 1 and exc is None:\n")])
M['c30-clean-skip'] = (['C30'], [(UT, "        failures = []\n        for name, pid in self.procs:\n", "        failures = []\n        for name, pid in self.procs if exc is None else ():\n")])
M['c30-clean-last'] = (['C30'], [(UT, "        self.procs.append((name, pid))\n", "        self.procs = [(name, pid)]\n")])
M['c30-clean-byname'] = (['C30'], [(UT, "            try:\n                assert_pid_dead(pid)\n            except AssertionError:\n", "            try:\n                assert not kill_procs(name)\n            except AssertionError:\n")])
M['c30-clean-pid'] = (['C30'], [(UT, "            pid = proc.pid\n", "            pid = proc.client.pid\n")])
M['c30-class-list'] = (['C30'], [(UT, "    def __init__(self):\n        self.procs = []\n\n    def add(", "    def __init__(self):\n        self.procs = [('parent', os.getppid())]\n\n    def add(")])
M['c30-enter'] = (['C30'], [(UT, "    def __enter__(self):\n        return self\n\n    def __exit__(self, exc_typ", "    def __enter__(self):\n        return ProcessCleaner()\n\n    def __exit__(self, exc_typ")])
R['c30-comp'] = ([], [(UT, "        found_procs = []\n        for line in processes:\n            pid, _, cmd = line.lstrip().partition(' ')\n            if search in cmd:\n                found_procs.append((int(pid), line))\n        return found_procs\n", "        split = [(line, line.lstrip().partition(' ')) for line in processes]\n        return [(int(parts[0]), line) for line, parts in split if search in parts[2]]\n")])
R['c30-continue'] = ([], [(UT, "            if search in cmd:\n                found_procs.append((int(pid), line))\n", "            if search not in cmd:\n                continue\n            found_procs.append((int(pid), line))\n")])
R['c30-split'] = ([], [(UT, "            pid, _, cmd = line.lstrip().partition(' ')\n            if search in cmd:\n                found_procs.append((int(pid), line))\n", "            fields = line.strip().split(' ', 1)\n            if len(fields) < 2:\n                continue\n            if search in fields[1]:\n                entry = (int(fields[0]), line)\n                found_procs.append(entry)\n")])
R['c30-splitlines'] = ([], [(UT, ".decode('utf-8').split('\\n')\n        found_procs", ".decode().splitlines()\n        found_procs")])
R['c30-notsearch'] = ([], [(UT, "    if search == '':\n", "    if not search:\n")])
R['c30-len'] = ([], [(UT, "    if search == '':\n", "    if len(search) == 0:\n")])
R['c30-kill-index'] = ([], [(UT, "    for pid, line in procs:\n        kill_pid(pid)\n    return procs\n", "    for proc in procs:\n        kill_pid(proc[0])\n    return list(procs)\n")])
R['c30-kill-flip'] = ([], [(UT, "    procs = find_procs(search)\n    if not procs:\n        return []\n    for pid, line in procs:\n        kill_pid(pid)\n    return procs\n", "    survivors = find_procs(search)\n    for pid, _line in survivors:\n        kill_pid(pid)\n    return survivors\n")])
R['c30-inline'] = ([], [(UT, "            kill_pid(pid)\n            killed.append(pid)\n        except (OSError, ProcessLookupError):\n            pass\n", "            os.kill(pid, signal.SIGKILL)\n        except OSError:\n            continue\n        killed.append(pid)\n")])
R['c30-raise'] = ([], [(UT, "        assert False, f\"Process(es) {killed} should have exited before this point\"\n", "        raise AssertionError('Process(es) %s should have exited before this point' % killed)\n")])
R['c30-assertnot'] = ([], [(UT, "    if killed:\n        assert False, f", "    assert not killed, f")])
R['c30-helper'] = ([], [(UT, "    for pid in pids:\n        try:\n            kill_pid(pid)\n            killed.append(pid)\n        except (OSError, ProcessLookupError):\n            pass\n", "    for pid in pids:\n        if _try_kill(pid):\n            killed.append(pid)\n"), (UT, "def assert_pids_dead(pids):", "def _try_kill(pid):\n    try:\n        kill_pid(pid)\n    except (OSError, ProcessLookupError):\n        return False\n    return True\n\n\ndef assert_pids_dead(pids):")])
R['c30-compkilled'] = ([], [(UT, "    killed = []\n    for pid in pids:\n        try:\n            kill_pid(pid)\n            killed.append(pid)\n        except (OSError, ProcessLookupError):\n            pass\n", "    killed = [pid for pid in pids if _try_kill(pid)]\n"), (UT, "def assert_pids_dead(pids):", "def _try_kill(pid):\n    try:\n        kill_pid(pid)\n    except (OSError, ProcessLookupError):\n        return False\n    return True\n\n\ndef assert_pids_dead(pids):")])
R['c30-exit'] = ([], [(UT, "        if len(failures) > 0 and exc is None:\n            raise AssertionError(f\"Processes failed to exit: {failures}\")\n        else:\n            return False  # process exception normally, if any\n", "        if exc_typ is not None:\n            return False\n        if failures:\n            raise AssertionError(f\"Processes failed to exit: {failures}\")\n")])
R['c30-exit-direct'] = ([], [(UT, "            try:\n                assert_pid_dead(pid)\n            except AssertionError:\n                failures.append(name)\n", "            try:\n                kill_pid(pid)\n            except OSError:\n                pass\n            else:\n                failures.append(name)\n")])
R['c30-dict'] = ([], [(UT, "        self.procs.append((name, pid))\n", "        entry = {'name': name, 'pid': pid}\n        self.procs.append(entry)\n"), (UT, "        for name, pid in self.procs:\n            try:\n", "        for entry in self.procs:\n            name, pid = entry['name'], entry['pid']\n            try:\n")])
M['c30-comp-line'] = (['C30'], [(UT, "        found_procs = []\n        for line in processes:\n            pid, _, cmd = line.lstrip().partition(' ')\n            if search in cmd:\n                found_procs.append((int(pid), line))\n        return found_procs\n", "        split = [(line, line.lstrip().partition(' ')) for line in processes]\n        return [(int(parts[0]), line) for line, parts in split if search in line]\n")])
M['c30-comp-or'] = (['C30'], [(UT, "        found_procs = []\n        for line in processes:\n            pid, _, cmd = line.lstrip().partition(' ')\n            if search in cmd:\n                found_procs.append((int(pid), line))\n        return found_procs\n", "        split = [(line, line.lstrip().partition(' ')) for line in processes]\n        return [(int(parts[0]), line) for line, parts in split if search in parts[2] or search in parts[0]]\n")])
# ---- C31
CL, SV = 'client.py', 'server.py'
CALL1 = "                try:\n                    result = obj(*fnargs)\n                except:\n                    logger.warning(\"Failed to call object %s: %d, %s\", obj, len(fnargs), fnargs[1:])\n                    raise\n"
M['c31-args-req'] = (['C31'], [(SV, "fnargs = opts.get('args', ())", "fnargs = opts['args']"), (CL, "        opts = {'obj': obj, 'args': args or (), 'kwargs': kwargs or {}} \n", "        opts = {'obj': obj}\n        if args:\n            opts['args'] = args\n        if kwargs:\n            opts['kwargs'] = kwargs\n")])
M['c31-kw-name'] = (['C31'], [(CL, "'kwargs': kwargs or {}}", "'kwds': kwargs or {}}")])
M['c31-none-args'] = (['C31'], [(CL, "'args': args or (),", "'args': args,")])
M['c31-none-kw'] = (['C31'], [(CL, "'kwargs': kwargs or {}}", "'kwargs': kwargs}")])
M['c31-drop-kw'] = (['C31'], [(SV, "                result = obj(*fnargs, **fnkwds)\n", "                result = obj(*fnargs) if fnargs else obj(**fnkwds)\n")])
M['c31-drop-args'] = (['C31'], [(SV, "            if len(fnkwds) == 0:  ##", "            if len(fnkwds) == 0 or not fnargs:  ##")])
M['c31-retry'] = (['C31'], [(SV, "                    logger.warning(\"Failed to call object %s: %d, %s\", obj, len(fnargs), fnargs[1:])\n                    raise\n", "                    result = obj()\n")])
M['c31-get-call'] = (['C31'], [(SV, "            result = opts['obj']\n", "            result = opts['obj']\n            if callable(result):\n                result = result()\n")])
M['c31-setname'] = (['C31'], [(CL, "opts={'name': name, 'obj': obj}", "opts={'name': name, 'value': obj}")])
M['c31-getname'] = (['C31'], [(SV, "result = self[opts['name']]", "result = self[opts['item']]")])
M['c31-first'] = (['C31'], [(SV, "        self._namespace[key] = value\n", "        self._namespace.setdefault(key, value)\n")])
M['c31-lower'] = (['C31'], [(SV, "            self[opts['name']] = opts['obj']\n", "            self[str(opts['name']).strip('x')] = opts['obj']\n")])
M['c31-ns2'] = (['C31'], [(SV, "            self[opts['name']] = opts['obj']\n", "            self._published = {opts['name']: opts['obj']}\n")])
M['c31-imp-top'] = (['C31'], [(SV, "                for part in parts[1:]:\n                    result = getattr(result, part)\n", "")])
M['c31-imp-last'] = (['C31'], [(SV, "                for part in parts[1:]:\n                    result = getattr(result, part)\n", "                if len(parts) > 1:\n                    result = getattr(result, parts[-1])\n")])
M['c31-imp-mod'] = (['C31'], [(SV, "                    result = getattr(result, part)\n", "                    result = getattr(mod, part)\n")])
M['c31-imp-two'] = (['C31'], [(SV, "for part in parts[1:]:", "for part in parts[1:2]:")])
M['c31-imp-key'] = (['C31'], [(CL, "opts={'module': module}", "opts={'name': module}")])
M['c31-imp-from'] = (['C31'], [(SV, "            fromlist = opts.get('fromlist', [])\n", "            fromlist = opts['fromlist']\n")])
M['c31-del-ids'] = (['C31'], [(CL, "opts={'obj_id': obj._obj_id, 'ref_id': obj._ref_id}", "opts={'obj_id': obj._ref_id, 'ref_id': obj._obj_id}")])
M['c31-del-noref'] = (['C31'], [(SV, "            proxy_ref[1].remove(opts['ref_id'])\n", "            proxy_ref[1].pop()\n")])
M['c31-ping'] = (['C31'], [(SV, "            result = 'pong'\n", "            result = None\n")])
M['c31-unknown'] = (['C31'], [(SV, "            raise ValueError(\"Invalid RPC action '%s'\" % action)\n", "            logger.warning(\"Invalid RPC action '%s'\", action)\n            result = None\n")])
M['c31-unknown-opts'] = (['C31'], [(SV, "        else:\n            raise ValueError(\"Invalid RPC action '%s'\" % action)\n", "        elif opts is None:\n            raise ValueError(\"Invalid RPC action '%s'\" % action)\n        else:\n            result = None\n")])
M['c31-release'] = (['C31'], [(CL, "        return self.send('ping', sync=sync, **kwds)", "        return self.send('echo', sync=sync, **kwds)")])
M['c31-case'] = (['C31'], [(SV, "elif action =='get_item':", "elif action =='getitem':")])
M['c31-transfer'] = (['C31'], [(CL, "        kwds['return_type'] = 'proxy'\n", "        kwds.setdefault('return_type', 'proxy')\n")])
M['c31-transfer2'] = (['C31'], [(CL, "        kwds['return_type'] = 'proxy'\n        return self.send('get_obj', opts={'obj': obj}, **kwds)\n", "        return self.send('get_obj', opts={'obj': obj}, **kwds)\n")])
M['c31-getproxy'] = (['C31'], [(CL, "        return self.send('get_obj', opts={'obj': obj}, **kwds)\n\n    def transfer", "        return self.send('get_obj', opts={'obj': obj}, return_type='proxy', **kwds)\n\n    def transfer")])
M['c31-kwds'] = (['C31'], [(CL, "opts={'module': module}, **kwds)", "opts={'module': module})")])
M['c31-nosync'] = (['C31'], [(CL, "        return self.send('ping', sync=sync, **kwds)", "        return self.send('ping', **kwds)")])
M['c31-set-async'] = (['C31'], [(CL, "opts={'name': name, 'obj': obj}, sync='sync')", "opts={'name': name, 'obj': obj}, sync='off')")])
M['c31-noreturn'] = (['C31'], [(CL, "        return self.send('import', opts", "        self.send('import', opts")])
M['c31-swap'] = (['C31'], [(SV, "            name, req_id, action, return_type, ser_type, opts = parts\n", "            name, req_id, return_type, action, ser_type, opts = parts\n")])
M['c31-rt'] = (['C31'], [(SV, "        return_type = msg.get('return_type', 'auto')\n", "        return_type = msg.get('returntype', 'auto')\n")])
M['c31-rt2'] = (['C31'], [(SV, "                    elif return_type == 'proxy':\n                        result = self.get_proxy(result)\n", "                    elif return_type == 'proxied':\n                        result = self.get_proxy(result)\n")])
M['c31-wireser'] = (['C31'], [(CL, "            opts_str = self.serializer.dumps(opts, server", "            opts_str = all_serializers['json']().dumps(opts, server")])
M['c31-emptyopts'] = (['C31'], [(SV, "            opts = msg.pop('opts', None)\n", "            opts = msg.pop('options', None)\n")])
M['c31-action-lower'] = (['C31'], [(SV, "'action': action.decode(), ", "'action': action.decode()[:8], ")])
R['c31-dispatch'] = ([], [(SV, "        elif action =='get_item':\n            result = self[opts['name']]\n        elif action =='set_item':\n            self[opts['name']] = opts['obj']\n            result = None\n", "        elif action in ('get_item', 'set_item'):\n            result = getattr(self, '_do_' + action)(opts)\n"), (SV, "    def _atexit(self):\n", "    def _do_get_item(self, opts):\n        return self[opts['name']]\n\n    def _do_set_item(self, opts):\n        self[opts['name']] = opts['obj']\n\n    def _atexit(self):\n")])
R['c31-import'] = ([], [(SV, "            mod = builtins.__import__(name, fromlist=fromlist)\n            \n            if len(fromlist) == 0:\n                parts = name.lstrip('.').split('.')\n                result = mod\n                for part in parts[1:]:\n                    result = getattr(result, part)\n            else:\n                result = map(mod.__getattr__, fromlist)\n", "            if len(fromlist) == 0:\n                result = importlib.import_module(name)\n            else:\n                mod = builtins.__import__(name, fromlist=fromlist)\n                result = map(mod.__getattr__, fromlist)\n"), (SV, "import builtins\n", "import builtins\nimport importlib\n")])
R['c31-import2'] = ([], [(SV, "                parts = name.lstrip('.').split('.')\n                result = mod\n                for part in parts[1:]:\n                    result = getattr(result, part)\n", "                result = mod\n                _, _, rest = name.partition('.')\n                while rest:\n                    part, _, rest = rest.partition('.')\n                    result = getattr(result, part)\n")])
R['c31-import3'] = ([], [(SV, "                parts = name.lstrip('.').split('.')\n                result = mod\n                for part in parts[1:]:\n                    result = getattr(result, part)\n", "                result = functools.reduce(getattr, name.lstrip('.').split('.')[1:], mod)\n"), (SV, "import builtins\n", "import builtins\nimport functools\n")])
R['c31-call'] = ([], [(SV, "            if len(fnkwds) == 0:  ## need", "            if not fnkwds:  ## need")])
R['c31-callone'] = ([], [(SV, CALL1 + "            else:\n                result = obj(*fnargs, **fnkwds)\n", CALL1.replace("                try", "                try").replace("obj(*fnargs)\n", "self._call(obj, fnargs, {})\n") + "            else:\n                result = self._call(obj, fnargs, fnkwds)\n"), (SV, "    def _atexit(self):\n", "    def _call(self, obj, args, kwds):\n        if kwds:\n            return obj(*args, **kwds)\n        return obj(*args)\n\n    def _atexit(self):\n")])
R['c31-ifs'] = ([], [(CL, "        opts = {'obj': obj, 'args': args or (), 'kwargs': kwargs or {}} \n", "        opts = {'obj': obj}\n        if args:\n            opts['args'] = args\n        if kwargs:\n            opts['kwargs'] = kwargs\n")])
R['c31-isnone'] = ([], [(CL, "        opts = {'obj': obj, 'args': args or (), 'kwargs': kwargs or {}} \n", "        if args is None:\n            args = ()\n        if kwargs is None:\n            kwargs = {}\n        opts = dict(obj=obj, args=args, kwargs=kwargs)\n")])
R['c31-returns'] = ([], [(SV, "            result = opts['obj']\n", "            return opts['obj']\n"), (SV, "            result = 'pong'\n", "            return 'pong'\n")])
R['c31-match'] = ([], [(SV, "        elif action == 'ping':\n            result = 'pong'\n", "        elif action in ('ping',):\n            return 'pong'\n")])
R['c31-transfer'] = ([], [(CL, "        kwds['return_type'] = 'proxy'\n        return self.send('get_obj', opts={'obj': obj}, **kwds)\n", "        request = {'obj': obj}\n        kwds.update(return_type='proxy')\n        return self.send('get_obj', request, **kwds)\n")])
R['c31-transfer2'] = ([], [(CL, "        kwds['return_type'] = 'proxy'\n        return self.send('get_obj', opts={'obj': obj}, **kwds)\n", "        return self.send('get_obj', opts={'obj': obj}, **dict(kwds, return_type='proxy'))\n")])
R['c31-const'] = ([], [(CL, "        return self.send('ping', sync=sync, **kwds)", "        reply = self.send(self._PING, sync=sync, **kwds)\n        return reply"), (CL, "    def close(self):\n        \"\"\"Close this client's", "    _PING = 'ping'\n\n    def close(self):\n        \"\"\"Close this client's")])
R['c31-frames'] = ([], [(CL, "        msg = [str(req_id).encode(), action.encode(), return_type.encode(), ser_type, opts_str]\n        self._socket.send_multipart(msg)\n", "        header = [str(req_id).encode(), action.encode(), return_type.encode(), ser_type]\n        self._socket.send_multipart(header + [opts_str])\n")])
R['c31-parts'] = ([], [(SV, "            name, req_id, action, return_type, ser_type, opts = parts\n", "            name, *fields = parts\n            req_id, action, return_type, ser_type, opts = fields\n")])
R['c31-sendres'] = ([], [(SV, "                    if return_type == 'auto':\n                        result = self.auto_proxy(result, self.serialize_types)\n                    elif return_type == 'proxy':\n                        result = self.get_proxy(result)\n", "                    if return_type == 'proxy':\n                        result = self.get_proxy(result)\n                    elif return_type == 'auto':\n                        result = self.auto_proxy(result, self.serialize_types)\n")])
# ---- C32
SET2 = "    if threading.excepthook is not _log_unhandled_exc_from_thread:\n        _threading_excepthook = threading.excepthook\n        threading.excepthook = _log_unhandled_exc_from_thread\n"
SET1 = "    if sys.excepthook is not _log_unhandled_exception:\n        _sys_excepthook = sys.excepthook\n        sys.excepthook = _log_unhandled_exception    \n"
LOGIT = "    logging.getLogger().warning(\"Unhandled exception:\\n%s\", exc_str)\n"
FMT = "    exc_str += traceback.format_exception(exc, val, tb)[1:]\n"
M['c32-nothread'] = (['C32'], [(HD, SET2, "")])
M['c32-early'] = (['C32'], [(HD, "    if sys.excepthook is not _log_unhandled_exception:\n", "    if sys.excepthook is _log_unhandled_exception:\n        return\n    if sys.excepthook is sys.__excepthook__:\n"), ])
M['c32-uncond'] = (['C32'], [(HD, SET1, "    _sys_excepthook = sys.excepthook\n    sys.excepthook = _log_unhandled_exception\n")])
M['c32-else'] = (['C32'], [(HD, SET2, SET2.replace("    if threading", "    elif threading"))])
M['c32-onlydefault'] = (['C32'], [(HD, "    if threading.excepthook is not _log_unhandled_exc_from_thread:\n", "    if threading.excepthook is threading.__excepthook__:\n")])
M['c32-none'] = (['C32'], [(HD, "    if threading.excepthook is not _log_unhandled_exc_from_thread:\n", "    if _threading_excepthook is not None:\n")])
M['c32-wrap'] = (['C32'], [(HD, SET1, "    previous = sys.excepthook\n    def hook(exc, val, tb):\n        _log_unhandled_exception(exc, val, tb)\n        previous(exc, val, tb)\n    sys.excepthook = hook\n")])
M['c32-logger'] = (['C32'], [(HD, "    logging.getLogger().warning(\"Unh", "    logging.getLogger('teleprox.exceptions').warning(\"Unh")])
M['c32-level'] = (['C32'], [(HD, "    logging.getLogger().warning(\"Unh", "    logging.getLogger().info(\"Unh")])
M['c32-only'] = (['C32'], [(HD, FMT, "    exc_str += traceback.format_exception_only(exc, val)\n")])
M['c32-last'] = (['C32'], [(HD, FMT, "    exc_str += traceback.format_exception(exc, val, tb)[-1:]\n")])
M['c32-limit'] = (['C32'], [(HD, FMT, "    exc_str += traceback.format_exception(exc, val, tb, limit=0)[1:]\n")])
M['c32-drop'] = (['C32'], [(HD, FMT, "")])
M['c32-fmtexc'] = (['C32'], [(HD, FMT, "    exc_str += traceback.format_exc().splitlines(True)\n")])
M['c32-exit'] = (['C32'], [(HD, "def _log_unhandled_exception(exc, val, tb):\n", "def _log_unhandled_exception(exc, val, tb):\n    if issubclass(exc, (KeyboardInterrupt, SystemExit)):\n        return _sys_excepthook(exc, val, tb)\n")])
M['c32-threadexit'] = (['C32'], [(HD, "    _log_unhandled_exception(args.exc_type,", "    if args.thread is not None and args.thread.daemon:\n        return\n    _log_unhandled_exception(args.exc_type,")])
M['c32-threadtb'] = (['C32'], [(HD, "args.exc_value, args.exc_traceback)", "args.exc_value, None)")])
M['c32-twice'] = (['C32'], [(HD, "    _log_unhandled_exception(args.exc_type, args.exc_value, args.exc_traceback)\n", "    _log_unhandled_exception(args.exc_type, args.exc_value, args.exc_traceback)\n    sys.excepthook(args.exc_type, args.exc_value, args.exc_traceback)\n")])
M['c32-hookbound'] = (['C32'], [(SV, "                sys.excepthook(*exc)\n", "                excepthook(*exc)\n"), (SV, "import builtins\n", "import builtins\nfrom sys import excepthook\n")])
M['c32-dunder'] = (['C32'], [(SV, "                sys.excepthook(*exc)\n", "                sys.__excepthook__(*exc)\n")])
M['c32-srvlog'] = (['C32'], [(SV, "                sys.excepthook(*exc)\n", "                logger.warning('request failed', exc_info=exc)\n")])
M['c32-req0'] = (['C32'], [(SV, "        elif exc is not None:\n", "        elif exc is not None and req_id < -1:\n")])
M['c32-excinfo'] = (['C32'], [(SV, "                sys.excepthook(*exc)\n", "                sys.excepthook(*sys.exc_info())\n")])
M['c32-isexc'] = (['C32'], [(SV, "        elif exc is not None:\n", "        elif exc is not None and issubclass(exc[0], Exception):\n")])
M['c32-boot'] = (['C32'], [('bootstrap.py', "    log.log_exceptions()\n", "")])
M['c32-bootif'] = (['C32'], [('bootstrap.py', "    log.log_exceptions()\n", "    if conf['logaddr'] is not None:\n        log.log_exceptions()\n")])
M['c32-bootlate'] = (['C32'], [('bootstrap.py', "    log.log_exceptions()\n", ""), ('bootstrap.py', "    status = {'address': server.address.decode(), 'pid': os.getpid()}\n", "    status = {'address': server.address.decode(), 'pid': os.getpid()}\n    log.log_exceptions()\n")])
M['c32-conf'] = (['C32'], [('log/__init__.py', "    if exceptions:\n        log_exceptions()\n\n    if start_server:\n", "    if start_server:\n        if exceptions:\n            log_exceptions()\n")])
M['c32-confdef'] = (['C32'], [('log/__init__.py', "exceptions=True", "exceptions=False")])
R['c32-flag'] = ([], [(HD, SET1, "    if sys.excepthook != _log_unhandled_exception:\n        _sys_excepthook, sys.excepthook = sys.excepthook, _log_unhandled_exception\n")])
R['c32-helper'] = ([], [(HD, SET1 + SET2, "    _install_sys()\n    _install_threading()\n"), (HD, "def log_exceptions():", "def _install_sys():\n    global _sys_excepthook\n    if sys.excepthook is _log_unhandled_exception:\n        return\n    _sys_excepthook = sys.excepthook\n    sys.excepthook = _log_unhandled_exception\n\n\ndef _install_threading():\n    global _threading_excepthook\n    if threading.excepthook is _log_unhandled_exc_from_thread:\n        return\n    _threading_excepthook = threading.excepthook\n    threading.excepthook = _log_unhandled_exc_from_thread\n\n\ndef log_exceptions():"), (HD, "    global _sys_excepthook, _threading_excepthook\n", "")])
R['c32-noorig'] = ([], [(HD, SET2, "    threading.excepthook = _log_unhandled_exc_from_thread\n")])
R['c32-rootmod'] = ([], [(HD, LOGIT, "    logging.warning('Unhandled exception:\\n%s', exc_str)\n")])
R['c32-log'] = ([], [(HD, LOGIT, "    root = logging.getLogger()\n    root.log(logging.WARNING, \"Unhandled exception:\\n\" + exc_str)\n")])
R['c32-lines'] = ([], [(HD, "    exc_str = traceback.format_stack()\n    exc_str += [\" < exception caught here >\\n\"]\n    exc_str += traceback.format_exception(exc, val, tb)[1:]\n    exc_str = ''.join(['    ' + line for line in exc_str])\n", "    lines = traceback.format_stack()\n    lines.append(\" < exception caught here >\\n\")\n    lines.extend(traceback.format_exception(exc, val, tb)[1:])\n    exc_str = ''\n    for line in lines:\n        exc_str += '    ' + line\n")])
R['c32-indent'] = ([], [(HD, "    exc_str = ''.join(['    ' + line for line in exc_str])\n", "    exc_str = ''.join(map(_indent, exc_str))\n"), (HD, "def _log_unhandled_exception(", "def _indent(line):\n    return '    ' + line\n\n\ndef _log_unhandled_exception(")])
R['c32-thread'] = ([], [(HD, "    _log_unhandled_exception(args.exc_type, args.exc_value, args.exc_traceback)\n", "    typ, val, tb, _thread = args\n    _log_unhandled_exception(typ, val, tb)\n")])
R['c32-lambda'] = ([], [(HD, "def _log_unhandled_exc_from_thread(args):\n    _log_unhandled_exception(args.exc_type, args.exc_value, args.exc_traceback)\n", "_log_unhandled_exc_from_thread = lambda args: _log_unhandled_exception(args.exc_type, args.exc_value, args.exc_traceback)\n")])
R['c32-report'] = ([], [(SV, "            try:\n                sys.excepthook(*exc)\n            except:\n                # the application may have installed a hook that can raise\n                logger.warning(\"sys.excepthook raised an exception\", exc_info=True)\n", "            self._report_unhandled(exc)\n"), (SV, "    def _send_error(self, caller", "    def _report_unhandled(self, exc):\n        hook = sys.excepthook\n        try:\n            hook(exc[0], exc[1], exc[2])\n        except:\n            logger.warning(\"sys.excepthook raised an exception\", exc_info=True)\n\n    def _send_error(self, caller")])
R['c32-order'] = ([], [('bootstrap.py', "    log.log_exceptions()\n", ""), ('bootstrap.py', "    log.set_thread_name('main_thread')\n", "    from teleprox.log.handler import log_exceptions\n    log_exceptions()\n    log.set_thread_name('main_thread')\n")])
R['c32-conf'] = ([], [('log/__init__.py', "    if exceptions:\n        log_exceptions()\n\n    if start_server:\n        start_log_server()\n", "    if start_server:\n        start_log_server()\n    if not exceptions:\n        return\n    log_exceptions()\n")])
