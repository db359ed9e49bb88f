S("b01-forced-single-raises", "C05",
  "the refusal of one method discards the answers of all the others",
  "a batch with a method that must be sent alone, and which the device refuses",
  [("kasa/protocols/smartprotocol.py", "                self._handle_response_error_code(\n                    resp, method, raise_on_error=raise_on_error\n                )\n", "                self._handle_response_error_code(\n                    resp,\n                    method,\n                    raise_on_error=raise_on_error or method in FORCE_SINGLE_REQUEST,\n                )\n")],
  '''
  from demolib import *
  from kasa.protocols.smartprotocol import FORCE_SINGLE_REQUEST

  single = sorted(FORCE_SINGLE_REQUEST)[0]

  def one(m, p):
      return {"error_code": -1008} if m == single else {"v": 1}

  async def main():
      return await smart(multi(one)).query({single: {"a": 1}, "get_b": None})

  try:
      r = run(main())
  except Exception as ex:
      fail(repr(ex))
  expect(r["get_b"] == {"v": 1}, r)
  ''')

S("b02-uneven-pages", "C06",
  "pages of a paged list are requested at multiples of the first page's size",
  "a device whose pages differ in size",
  [("kasa/protocols/smartprotocol.py",
    "        while (list_length := len(response_result[response_list_name])) < list_sum:\n            request = self._get_list_request(method, params, list_length)\n",
    "        page_size = len(response_result[response_list_name])\n        page = 0\n        while len(response_result[response_list_name]) < list_sum:\n            page += 1\n            request = self._get_list_request(method, params, page * page_size)\n")],
  '''
  from demolib import *

  ALL = list(range(7))

  def one(m, p):
      s = (p or {}).get("start_index", 0)
      n = {0: 3}.get(s, 1)
      return {"start_index": s, "sum": len(ALL), "items": ALL[s:s + n]}

  async def main():
      p = smart(multi(one))
      return await p.query({"get_items": {"start_index": 0}})

  r = run(main())
  expect(r["get_items"]["items"] == ALL, r)
  ''')

S("b03-no-reset-after-giving-up", "C03",
  "the transport is left unreset when the last attempt ends in a retryable error",
  "a query whose every attempt fails with a retryable error",
  [("kasa/protocols/iotprotocol.py",
    "                await self._transport.reset()\n                if retry >= retry_count:\n                    _LOGGER.debug(\"Giving up on %s after %s retries\", self._host, retry)\n                    raise ex\n                continue\n            except TimeoutError as ex:\n",
    "                if retry >= retry_count:\n                    _LOGGER.debug(\"Giving up on %s after %s retries\", self._host, retry)\n                    raise ex\n                await self._transport.reset()\n                continue\n            except TimeoutError as ex:\n")],
  '''
  from demolib import *
  from kasa.exceptions import _RetryableError
  from kasa.protocols import IotProtocol

  t = None

  async def main():
      global t
      t = Fake(lambda r: _RetryableError("x"))
      p = IotProtocol(transport=t)
      try:
          await p.query({"system": {"get_sysinfo": {}}}, retry_count=1)
      except _RetryableError:
          pass

  with NoSleep():
      run(main())
  expect(t.resets == 2, f"{t.resets} resets for 2 failures")
  ''')

S("b04-cancel-after-send-keeps-stream", "C02",
  "a cancelled exchange leaves its connection in use, so the next query reads the answer of the cancelled one",
  "a query cancelled between its request and its answer, followed by another query",
  [("kasa/transports/xortransport.py", "        self.writer.write(XorEncryption.encrypt(request))\n        await self.writer.drain()\n", "        self._request_sent = False\n        self.writer.write(XorEncryption.encrypt(request))\n        await self.writer.drain()\n        self._request_sent = True\n"),
   ("kasa/transports/xortransport.py", "                f\"Unable to query the device {self._host}:{self._port}: {ex}\"\n            ) from ex\n        except BaseException:\n            # Likely something cancelled the task so we need to close the connection\n            # as we are not in an indeterminate state\n            self.close_without_wait()\n            raise\n", "                f\"Unable to query the device {self._host}:{self._port}: {ex}\"\n            ) from ex\n        except BaseException:\n            # Likely something cancelled the task so we need to close the connection\n            # if the request may have been sent only in part\n            if not self._request_sent:\n                self.close_without_wait()\n            raise\n")],
  '''
  from demolib import *
  from kasa.transports import XorTransport
  from kasa.transports.xortransport import XorEncryption

  async def main():
      n = 0
      first = asyncio.Event()
      go = asyncio.Event()

      async def serve(r, w):
          nonlocal n
          try:
              while True:
                  size = int.from_bytes(await r.readexactly(4), "big")
                  req = XorEncryption.decrypt(await r.readexactly(size))
                  n += 1
                  if n == 1:
                      first.set()
                      await go.wait()
                  w.write(XorEncryption.encrypt(json.dumps({"echo": json.loads(req)})))
                  await w.drain()
          except (asyncio.IncompleteReadError, ConnectionError):
              w.close()

      server = await asyncio.start_server(serve, "127.0.0.1", 0)
      port = server.sockets[0].getsockname()[1]
      t = XorTransport(config=DeviceConfig("127.0.0.1", port_override=port))
      task = asyncio.create_task(t.send('{"q": 1}'))
      await first.wait()
      task.cancel()
      try:
          await task
      except asyncio.CancelledError:
          pass
      go.set()
      r = await t.send('{"q": 2}')
      await t.close()
      server.close()
      expect(r == {"echo": {"q": 2}}, r)

  run(main())
  ''')

S("b05-lock-released-while-backing-off", "C04",
  "another caller's request is sent between two attempts of one query",
  "a query that is retried while another caller is waiting",
  [("kasa/protocols/smartprotocol.py", "                    raise ex\n                await asyncio.sleep(self.BACKOFF_SECONDS_AFTER_TIMEOUT)\n                continue\n            except TimeoutError as ex:\n", "                    raise ex\n                if self._query_lock.locked():\n                    self._query_lock.release()\n                    try:\n                        await asyncio.sleep(self.BACKOFF_SECONDS_AFTER_TIMEOUT)\n                    finally:\n                        await self._query_lock.acquire()\n                continue\n            except TimeoutError as ex:\n")],
  '''
  from demolib import *

  order = []
  state = {"n": 0}

  async def handler(req):
      order.append(req["method"])
      await asyncio.sleep(0)
      if req["method"] == "get_a":
          state["n"] += 1
          if state["n"] == 1:
              return {"error_code": 9999}
      return {"result": {}, "error_code": 0}

  async def main():
      p = smart(handler)
      await asyncio.gather(p.query({"get_a": None}), p.query({"get_b": None}))

  run(main())
  expect(order == ["get_a", "get_a", "get_b"], order)
  ''')

S("b07-stale-klap-cookie", "C09",
  "the cookie of an earlier session is sent within a new one when the device sets none",
  "a second handshake in which the device sets no session cookie",
  [("kasa/transports/klaptransport.py",
    "        self._session_expire_at = None\n        self._session_cookie = None\n\n        local_seed, remote_seed, auth_hash",
    "        self._session_expire_at = None\n\n        local_seed, remote_seed, auth_hash")],
  '''
  from demolib import *
  import hashlib
  from kasa.transports import KlapTransportV2

  sha256 = lambda b: hashlib.sha256(b).digest()

  async def main():
      t = KlapTransportV2(config=DeviceConfig("127.0.0.1", credentials=Credentials("a", "b")))
      rs = bytes(range(16))
      seen = []

      async def post(url, *, data=None, cookies_dict=None, **k):
          if url.path.endswith("handshake1"):
              return 200, rs + sha256(data + rs + t._local_auth_hash)
          seen.append(cookies_dict)
          return 200, b""

      t._http_client.post = post
      t._http_client.get_cookie = lambda n: "one" if n == t.SESSION_COOKIE_NAME else None
      await t.perform_handshake()
      t._http_client.get_cookie = lambda n: None
      await t.perform_handshake()
      expect(seen == [{t.SESSION_COOKIE_NAME: "one"}, None], seen)

  run(main())
  ''')

S("b08-expired-keeps-token", "C11",
  "after the session expired the commands of the new one are sent with the token of the old one",
  "a session used past its lifetime, renewed without a login",
  [("kasa/transports/aestransport.py", "        self._state = TransportState.LOGIN_REQUIRED\n\n        _LOGGER.debug(\"Handshake with %s complete\", self._host)\n", "        if self._state is TransportState.HANDSHAKE_REQUIRED:\n            self._state = TransportState.LOGIN_REQUIRED\n\n        _LOGGER.debug(\"Handshake with %s complete\", self._host)\n")],
  '''
  from demolib import *
  import time
  from kasa.transports import AesTransport
  import kasa.transports.aestransport as at

  now = [1000.0]
  at.time = type("T", (), {"time": staticmethod(lambda: now[0])})
  logins = []

  class Session:
      def encrypt(self, data):
          return data

      def decrypt(self, data):
          return data

  at.AesEncyptionSession = type("A", (), {"create_from_keypair": staticmethod(lambda k, p: Session())})

  async def main():
      t = AesTransport(config=DeviceConfig("127.0.0.1", credentials=Credentials("u", "p")))

      class H:
          async def post(self, url, *, json=None, headers=None, cookies_dict=None, **k):
              if hasattr(json, "__aiter__"):
                  async for _ in json:
                      pass
                  return 200, {"error_code": 0, "result": {"key": "k"}}
              import json as j

              raw = json if isinstance(json, dict) else j.loads(json)
              req = j.loads(raw["params"]["request"])
              if req["method"] == "login_device":
                  logins.append(1)
                  return 200, {"error_code": 0, "result": {"response": j.dumps({"error_code": 0, "result": {"token": "t%d" % len(logins)}})}}
              return 200, {"error_code": 0, "result": {"response": j.dumps({"error_code": 0, "result": {}})}}

          def get_cookie(self, name):
              return None

      t._http_client = H()
      await t.send('{"method": "get_x"}')
      now[0] += 30 * 24 * 3600
      await t.send('{"method": "get_x"}')

  run(main())
  expect(len(logins) == 2, f"{len(logins)} logins for two sessions")
  ''')

S("b09-seq-only-on-success", "C12",
  "the sequence number of a camera command is reused when the command before it failed",
  "a command refused with an HTTP status, followed by another in the same session",
  [("kasa/transports/sslaestransport.py", "        self._seq += 1\n        status_code, resp_dict = await self._http_client.post(\n            url,\n            json=passthrough_request_str,\n",
    "        status_code, resp_dict = await self._http_client.post(\n            url,\n            json=passthrough_request_str,\n"),
   ("kasa/transports/sslaestransport.py",
    "                + f\"status code {status_code} to passthrough\"\n            )\n",
    "                + f\"status code {status_code} to passthrough\"\n            )\n        self._seq += 1\n")],
  '''
  from demolib import *
  from yarl import URL
  from kasa.exceptions import KasaException
  from kasa.transports.aestransport import AesEncyptionSession
  from kasa.transports.sslaestransport import SslAesTransport, TransportState

  async def main():
      t = SslAesTransport(config=DeviceConfig("127.0.0.1", credentials=Credentials("a", "b")))
      t._encryption_session = AesEncyptionSession(bytes(16), bytes(16))
      t._state = TransportState.ESTABLISHED
      t._token_url = URL("https://127.0.0.1/stok=x/ds")
      t._local_nonce, t._pwd_hash, t._seq = "N", "P", 10
      seqs = []

      async def post(url, *, headers=None, **k):
          seqs.append(headers["Seq"])
          return (404, {}) if len(seqs) == 1 else (200, {"error_code": 0, "result": {}})

      t._http_client.post = post
      try:
          await t.send_secure_passthrough('{"a": 1}')
      except KasaException:
          pass
      await t.send_secure_passthrough('{"a": 2}')
      expect(len(set(seqs)) == 2, seqs)

  run(main())
  ''')

S("b10-ssl-expiry-after-login-only", "C13",
  "the transport's session never expires once a login happened after a reset",
  "a session used past its lifetime",
  [("kasa/transports/ssltransport.py",
    "        if self._state is not TransportState.ESTABLISHED or self._session_expired():\n",
    "        if self._state is not TransportState.ESTABLISHED and self._session_expired():\n")],
  '''
  from demolib import *
  from kasa.transports import SslTransport

  async def main():
      t = SslTransport(config=DeviceConfig("127.0.0.1", credentials=Credentials("a", "b")))
      reqs = []

      async def post(url, *, json=None, **k):
          import json as j
          reqs.append(j.loads(json)["method"])
          return 200, {"error_code": 0, "result": {"token": "T"}}

      t._http_client.post = post
      await t.send('{"method": "a"}')
      await t.reset()
      await t.send('{"method": "b"}')
      expect(reqs == ["login", "a", "login", "b"], reqs)

  run(main())
  ''')

S("b11-callers-cookies", "C14",
  "cookies left in a caller's HTTP session are replayed to the device",
  "a configuration with the caller's own http session whose jar holds a cookie",
  [("kasa/httpclient.py", "        self.client.cookie_jar.clear()\n",
    "        if self._client_session:\n            self._client_session.cookie_jar.clear()\n")],
  '''
  from demolib import *
  import aiohttp
  from aiohttp import web
  from kasa.httpclient import HttpClient, get_cookie_jar
  from yarl import URL

  async def main():
      got = []

      async def h(req):
          got.append(dict(req.cookies))
          r = web.Response(body=b"ok")
          r.set_cookie("S", "1")
          return r

      app = web.Application()
      app.router.add_post("/app", h)
      runner = web.AppRunner(app)
      await runner.setup()
      site = web.TCPSite(runner, "127.0.0.1", 0)
      await site.start()
      port = site._server.sockets[0].getsockname()[1]
      async with aiohttp.ClientSession(cookie_jar=get_cookie_jar()) as s:
          c = HttpClient(DeviceConfig("127.0.0.1", http_client=s))
          u = URL(f"http://127.0.0.1:{port}/app")
          await c.post(u, data=b"1")
          await c.post(u, data=b"2")
      await runner.cleanup()
      expect(got == [{}, {}], got)

  run(main())
  ''')

S("b12-redact-nested-lists", "C15",
  "sensitive values inside a list of lists are logged",
  "an answer with a list nested in a list",
  [("kasa/protocols/protocol.py",
    "            redacted[key] = [redact_data(item, redactors) for item in value]\n",
    "            redacted[key] = [\n                redact_data(item, redactors) if isinstance(item, dict) else item\n                for item in value\n            ]\n")],
  '''
  from demolib import *
  from kasa.protocols.protocol import redact_data
  from kasa.protocols.smartprotocol import REDACTORS

  r = redact_data({"rooms": [[{"ssid": "SECRET"}]]}, REDACTORS)
  expect("SECRET" not in repr(r), r)
  ''')

S("b13-hash-beats-credentials", "C16",
  "a stale credentials hash is offered for storage although newer credentials are in use",
  "a camera configuration holding both credentials and an older hash",
  [("kasa/transports/sslaestransport.py",
    "        if not self._credentials and self._credentials_hash:\n            return self._credentials_hash\n",
    "        if self._credentials_hash:\n            return self._credentials_hash\n")],
  '''
  from demolib import *
  from kasa.transports.sslaestransport import SslAesTransport

  async def main():
      old = SslAesTransport(config=DeviceConfig("127.0.0.1", credentials=Credentials("a", "old"))).credentials_hash
      both = SslAesTransport(config=DeviceConfig("127.0.0.1", credentials=Credentials("a", "new"), credentials_hash=old))
      new = SslAesTransport(config=DeviceConfig("127.0.0.1", credentials=Credentials("a", "new"))).credentials_hash
      expect(both.credentials_hash == new, "stale hash")

  run(main())
  ''')

S("b14-connect-leaks-on-cancel", "C17",
  "a cancelled connect leaves its connection open",
  "connect() cancelled (for example by a timeout around it) while a request is outstanding",
  [("kasa/device_factory.py", "    except:\n        await protocol.close()\n        raise\n",
    "    except Exception:\n        await protocol.close()\n        raise\n")],
  '''
  from demolib import *
  import kasa.device_factory as df
  from kasa import Device

  async def main():
      async def h(req):
          await asyncio.sleep(30)

      p = smart(h)
      df.get_protocol = lambda config: p
      from kasa import DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
      cfg = DeviceConfig("127.0.0.1", connection_type=DeviceConnectionParameters(DeviceFamily.SmartTapoBulb, DeviceEncryptionType.Klap))
      try:
          await asyncio.wait_for(Device.connect(config=cfg), 0.05)
      except TimeoutError:
          pass
      expect(p._transport.closes == 1, f"closed {p._transport.closes} times")

  run(main())
  ''')

S("b15-child-error-with-result", "C08",
  "a child's refusal that carries a result is taken for a success",
  "a child answering with an error code and a (partial) result",
  [("kasa/protocols/smartprotocol.py", "            self._handle_response_error_code(response_data, \"control_child\")\n", "            if not result:\n                self._handle_response_error_code(response_data, \"control_child\")\n")],
  '''
  from demolib import *
  from kasa import DeviceError
  from kasa.protocols.smartprotocol import _ChildProtocolWrapper

  def handler(req):
      return {"result": {"responseData": {"error_code": -1008, "result": {"partial": 1}}}, "error_code": 0}

  async def main():
      p = _ChildProtocolWrapper("dev1", smart(handler))
      try:
          return await p.query({"get_x": None})
      except DeviceError as ex:
          return "error"

  r = run(main())
  expect(r == "error", r)
  ''')

S("b16-length-in-characters", "C01",
  "the length prefix counts characters instead of bytes",
  "a request holding a character outside ASCII (an alias, for instance)",
  [("kasa/transports/xortransport.py", "_UNSIGNED_INT_NETWORK_ORDER.pack(len(plainbytes)) + bytes(",
    "_UNSIGNED_INT_NETWORK_ORDER.pack(len(request)) + bytes(")],
  '''
  import sys

  sys.modules["kasa_crypt"] = None  # an installation without the optional accelerator
  from demolib import *
  from kasa.transports.xortransport import XorEncryption

  s = '{"alias": "K\\u00fcche \\u2603"}'
  e = XorEncryption.encrypt(s)
  expect(int.from_bytes(e[:4], "big") == len(e) - 4, "length prefix")
  expect(XorEncryption.decrypt(e[4:]) == s, "round trip")
  ''')

S("b17-nonce-not-retried", "C07",
  "an invalid nonce is reported instead of retried",
  "a device answering with INVALID_NONCE",
  [("kasa/exceptions.py", "    SmartErrorCode.SESSION_EXPIRED,\n    SmartErrorCode.INVALID_NONCE,\n", "    SmartErrorCode.SESSION_EXPIRED,\n")],
  '''
  from demolib import *

  state = {"n": 0}

  def handler(req):
      state["n"] += 1
      if state["n"] == 1:
          return {"error_code": -40413}
      return {"result": {"v": 1}, "error_code": 0}

  async def main():
      with NoSleep():
          return await smart(handler).query({"get_x": None})

  try:
      r = run(main())
  except Exception as ex:
      fail(repr(ex))
  expect(r == {"get_x": {"v": 1}}, r)
  ''')


S("b18-login-version-order", "C18",
  "the login version of a discovered camera is the last listed instead of the highest",
  "a camera announcing its versions in descending order",
  [("kasa/discover.py", "login_version = max([int(i) for i in et])", "login_version = int(et[-1])")],
  '''
  from demolib import *
  from kasa.discover import Discover, DiscoveryResult

  data = fixture("smartcam/C210(EU)_2.0_1.4.2.json")["discovery_result"]["result"]
  data = {**data, "encrypt_type": ["3", "2"]}
  p = Discover._get_connection_parameters(DiscoveryResult.from_dict(data))
  expect(p.login_version == 3, p)
  ''')

S("b19-noise-counts-as-answer", "C18",
  "a datagram from an unrelated port counts as the answer of its host",
  "a host answering first from an unrelated port, then properly",
  [("kasa/discover.py", """        # Ignore anything not sent by a discovery responder
        if port not in (self.discovery_port, Discover.DISCOVERY_PORT_2):
            return
        # Prevent multiple entries due multiple broadcasts
        if ip in self.seen_hosts:
            return
        self.seen_hosts.add(ip)
""", """        # Prevent multiple entries due multiple broadcasts
        if ip in self.seen_hosts:
            return
        self.seen_hosts.add(ip)
        # Ignore anything not sent by a discovery responder
        if port not in (self.discovery_port, Discover.DISCOVERY_PORT_2):
            return
""")],
  '''
  from demolib import *
  from kasa.discover import _DiscoverProtocol, _AesDiscoveryQuery

  async def main():
      p = _DiscoverProtocol()
      info = fixture("smart/L530E(EU)_3.0_1.1.6.json")["discovery_result"]
      data = b"x" * 16 + json.dumps(info).encode()
      p.datagram_received(b"noise", ("10.0.0.7", 5353))
      p.datagram_received(data, ("10.0.0.7", 20002))
      return p

  p = run(main())
  expect(list(p.discovered_devices) == ["10.0.0.7"], p.discovered_devices)
  ''')

S("b21-thermostat-at-minimum", "C19",
  "switching a thermostat on while its target is the lowest one leaves it off",
  "a radiator valve whose target equals its lowest temperature",
  [("kasa/smart/modules/temperaturecontrol.py",
    """        return await self.call("set_device_info", {"frost_protection_on": not enabled})""",
    """        payload = {"frost_protection_on": not enabled}
        if enabled and self.target_temperature <= self.minimum_target_temperature:
            payload = {"target_temp": self.minimum_target_temperature}
        return await self.call("set_device_info", payload)""")],
  '''
  from demolib import *

  async def main():
      def edit(data):
          i = data["get_device_info"]
          i["frost_protection_on"] = True
          i["target_temp"] = i["min_control_temp"]

      d = await device("KE100(EU)_1.0_2.8.0.json", edit)
      await d.features["state"].set_value(True)
      await d.update()
      return d.features["state"].value

  expect(run(main()) is True, "still off")
  ''')

S("b23-temp-drops-brightness", "C20",
  "a colour temperature command drops a brightness of 1",
  "a colour temperature with the lowest brightness",
  [("kasa/smart/modules/colortemperature.py",
    "        params = {\"color_temp\": temp}\n", "        params = {\"color_temp\": temp}\n        if brightness == 1:\n            brightness = None\n")],
  """
  from demolib import *
  from kasa import Module

  async def main():
      d = await device("L530E(EU)_3.0_1.1.6.json")
      await d.modules[Module.Light].set_color_temp(4000, brightness=1)
      await d.update()
      return d.modules[Module.Light].brightness

  r = run(main())
  expect(r == 1, r)
  """)

S("b24-error-interval-from-first", "C21",
  "a failing module is asked again too soon after its second failure",
  "a module that fails twice in a row, thirty seconds apart",
  [("kasa/smart/smartmodule.py", "            return self.UPDATE_INTERVAL_AFTER_ERROR_SECS * self._error_count",
    "            return self.UPDATE_INTERVAL_AFTER_ERROR_SECS * max(1, self._error_count - 1)")],
  """
  from demolib import *
  import time
  from kasa.exceptions import SmartErrorCode

  async def main():
      now = [1000.0]
      real = time.monotonic
      import kasa.smart.smartdevice as sd

      d = await device("L530E(EU)_3.0_1.1.6.json")
      sd.time.monotonic = lambda: now[0]
      try:
          inner = d.protocol.query

          async def query(req, retry_count=3):
              r = await inner(req, retry_count)
              if "get_on_off_gradually_info" in r:
                  r["get_on_off_gradually_info"] = SmartErrorCode.UNSPECIFIC_ERROR
              return r

          d.protocol.query = query
          asked = []
          for t in (20000.0, 20031.0, 20062.0, 20100.0):
              now[0] = t
              d.sent.clear()
              await d.update()
              asked.append("get_on_off_gradually_info" in str(d.sent))
      finally:
          sd.time.monotonic = real
      return asked

  r = run(main())
  expect(r == [True, True, False, True], r)
  """)

S("b25-individual-retry-stops", "C21",
  "when the combined request fails, modules after the first that fails alone are not asked",
  "a combined request that fails and a module that fails alone as well",
  [("kasa/smart/smartdevice.py",
    "                responses[meth] = SmartErrorCode.INTERNAL_QUERY_ERROR\n        return responses",
    "                responses[meth] = SmartErrorCode.INTERNAL_QUERY_ERROR\n                if not first_update and isinstance(iex, AuthenticationError):\n                    responses.update(\n                        dict.fromkeys(requests, SmartErrorCode.INTERNAL_QUERY_ERROR)\n                    )\n        return responses")],
  """
  from demolib import *
  from kasa.exceptions import AuthenticationError, SmartErrorCode
  from kasa import Module

  async def main():
      d = await device("L530E(EU)_3.0_1.1.6.json")
      inner = d.protocol.query

      async def query(req, retry_count=3):
          if len(req) > 1 or "get_on_off_gradually_info" in req:
              raise AuthenticationError("no")
          return await inner(req, retry_count)

      d.protocol.query = query
      import kasa.smart.smartdevice as sd
      t = sd.time.monotonic
      off = 10 ** 6
      sd.time.monotonic = lambda: t() + off
      try:
          await d.update()
      except Exception as ex:
          return repr(ex)
      finally:
          sd.time.monotonic = t
      return [k for k, v in d._last_update.items() if isinstance(v, SmartErrorCode)]

  r = run(main())
  expect(r == ["get_on_off_gradually_info"], r)
  """)

S("b27-added-by-prefix", "C22",
  "pairing reports a device as added when the hub only has another whose identifier begins alike",
  "a detected device that was not added, next to one with nearly the same identifier",
  [("kasa/smart/modules/childsetup.py",
    "            if device_id in self._device._children:\n",
    "            if any(device_id.startswith(c[:-2]) for c in self._device._children):\n")],
  """
  from demolib import *
  from kasa import Module

  async def main():
      d = await device("H100(EU)_1.0_1.5.10.json")
      have = list(d._children)[0]
      new = have[:-2] + ("00" if have[-2:] != "00" else "11")
      cs = d.modules[Module.ChildSetup]

      async def call(method, params=None):
          return {"get_scan_child_device_list": {"child_device_list": [{"device_id": new, "device_model": "X", "category": "c", "name": "n"}]}}

      cs.call = call
      with NoSleep():
          return await cs.pair(timeout=1)

  r = run(main())
  expect(r == [], r)
  """)

S("b28-portion-forgets-module", "C23",
  "after a request was cut, the module that did not fit is not counted towards the next one",
  "a device with several modules with large answers",
  [("kasa/iot/iotdevice.py", "                req = {}\n                est_response_size = module.estimated_query_response_size\n",
    "                req = {}\n                est_response_size = 0\n")],
  '''
  from demolib import *
  from kasa.iot.iotmodule import IotModule

  async def main():
      d = await device("HS110(EU)_1.0_1.2.5.json")
      sizes = {}
      d.__class__ = type("Small", (d.__class__,), {"max_device_response_size": property(lambda s: 5000)})
      for m in d._modules.values():
          m.__class__ = type(m.__class__.__name__, (m.__class__,), {"estimated_query_response_size": property(lambda s: 2500)})
      await d.update()
      return [len([k for k in r if k != "system"]) for r in d.sent], d.sent

  r, sent = run(main())
  n = [sum(len(v) for k, v in q.items() if k != "system") for q in sent]
  print(n)
  expect(len(n) >= 4, sent)
  ''')

S("b30-socket-by-suffix", "C24",
  "a socket is found by the last digit of its identifier",
  "a strip with more than ten sockets",
  [("kasa/iot/iotstrip.py", '            if plug["id"] == self.child_id:', '            if plug["id"][-1:] == self.child_id[-1:]:')],
  '''
  from demolib import *

  async def main():
      def edit(data):
          ch = data["system"]["get_sysinfo"]["children"]
          for i, c in enumerate(ch):
              c["id"] = c["id"][:-2] + f"{i}0"
              c["alias"] = f"s{i}"

      d = await device("KP303(UK)_1.0_1.0.3.json", edit)
      return [c.alias for c in d.children]

  r = run(main())
  expect(r == ["s0", "s1", "s2"], r)
  ''')

S("b33-given-month-forgotten", "C25",
  "statistics asked for a month without a year are those of the current month",
  "daily statistics for a given month of this year",
  [("kasa/iot/modules/usage.py", "        if year is None:\n            year = datetime.now().year\n        if month is None:\n            month = datetime.now().month\n",
    "        if year is None or month is None:\n            now = datetime.now()\n            year, month = year or now.year, now.month\n")],
  '''
  from demolib import *
  from datetime import datetime
  from kasa import Module

  async def main():
      d = await device("HS110(EU)_1.0_1.2.5.json")
      m = datetime.now().month % 12 + 1
      await d.modules[Module.Energy].get_daily_stats(month=m)
      return m, str(d.sent)

  m, s = run(main())
  expect(f"'month': {m}}}" in s, s)
  ''')

S("b34-time-set-drops-offset", "C26",
  "the offset sent with a new time is truncated to the hour",
  "a clock set in a zone with half-hour offset",
  [("kasa/smart/modules/time.py", "        time_diff = utc_offset / timedelta(minutes=1)\n",
    "        time_diff = utc_offset // timedelta(hours=1) * 60\n")],
  '''
  from demolib import *
  from datetime import datetime
  from zoneinfo import ZoneInfo
  from kasa import Module

  async def main():
      d = await device("L530E(EU)_3.0_1.1.6.json")
      await d.modules[Module.Time].set_time(datetime(2024, 5, 1, 12, tzinfo=ZoneInfo("Asia/Kolkata")))
      return str(d.sent)

  s = run(main())
  expect("'time_diff': 330" in s, s)
  ''')

S("b56-zone-zero-is-missing", "C26",
  "a legacy device whose zone is the first of the list (index 0) shows its clock in the zone it had before, or in UTC",
  "a legacy device that reports the zone index 0",
  [("kasa/iot/modules/time.py", "            self._timezone = await get_timezone(res.get(\"index\"))\n",
    "            if index := res.get(\"index\"):\n                self._timezone = await get_timezone(index)\n")],
  '''
  from demolib import *
  from datetime import datetime, timedelta
  from zoneinfo import ZoneInfo

  from kasa import Module

  async def main():
      dev = await device("HS110(EU)_1.0_1.2.5.json")
      await dev.modules[Module.Time].set_time(datetime(2024, 1, 1, tzinfo=ZoneInfo("Etc/GMT+12")))
      await dev.update()
      return dev.time.utcoffset()

  r = run(main())
  expect(r == timedelta(hours=-12), r)
  ''')

S("b36-preset-index-by-name", "C27",
  "saving a preset uses its place in the list shown instead of the device's",
  "a light that lists an effect before its presets",
  [("kasa/smart/modules/lightpreset.py", "                index = index + 1\n        elif", "                index = device_index + 1\n        elif")],
  '''
  from demolib import *
  from kasa import Module

  async def main():
      def edit(data):
          st = data["get_preset_rules"]["states"]
          st.insert(0, {"lighting_effect": {"name": "Aurora", "brightness": 50}})

      d = await device("L920-5(EU)_1.0_1.1.3.json", edit)
      return d.modules[Module.LightPreset].preset_list

  r = run(main())
  expect(r[1:] == [f"Light preset {i + 1}" for i in range(len(r) - 1)], r)
  ''')

S("b37-effect-off-keeps-custom", "C28",
  "turning a customised effect off sends the stock effect as enabled",
  "an effect turned off while a custom one is running",
  [("kasa/smart/modules/lightstripeffect.py", "            effect_dict = {**effect_dict}\n            effect_dict[\"enable\"] = 0\n",
    "            effect_dict = {**effect_dict}\n            effect_dict[\"enable\"] = int(bool(self.data[\"lighting_effect\"][\"custom\"]))\n")],
  '''
  from demolib import *
  from kasa import Module

  async def main():
      def edit(data):
          data["get_device_info"]["lighting_effect"].update({"enable": 1, "custom": 1, "name": "Mine"})

      d = await device("L920-5(EU)_1.0_1.1.3.json", edit)
      m = d.modules[Module.LightEffect]
      await m.set_effect("Off")
      await d.update()
      return m.effect

  r = run(main())
  expect(r == "Off", r)
  ''')

S("b38-iot-effect-mutates", "C28",
  "a brightness given with an effect sticks to the built-in effect",
  "an effect chosen with a brightness, then again without",
  [("kasa/iot/modules/lighteffect.py", "            effect_dict = {**effect_dict}\n            if brightness is not None:\n",
    "            effect_dict = effect_dict if brightness else {**effect_dict}\n            if brightness is not None:\n")],
  '''
  from demolib import *
  from kasa import Module

  async def main():
      d = await device("KL430(US)_2.0_1.0.8.json")
      m = d.modules[Module.LightEffect]
      await m.set_effect("Aurora")
      a = d.sent[-1]["smartlife.iot.lighting_effect"]["set_lighting_effect"]["brightness"]
      await m.set_effect("Aurora", brightness=a - 10)
      await m.set_effect("Aurora")
      return a, d.sent[-1]["smartlife.iot.lighting_effect"]["set_lighting_effect"]["brightness"]

  a, b = run(main())
  expect(a == b, (a, b))
  ''')

S("b39-volume-keeps-first-duration", "C29",
  "changing the volume of an alarm a second time restores an older duration",
  "an alarm whose duration was changed between two changes of the volume",
  [("kasa/smart/modules/alarm.py", "        target_volume = self._check_and_convert_volume(volume)\n        payload = self.data[\"get_alarm_configure\"].copy()\n",
    "        target_volume = self._check_and_convert_volume(volume)\n        payload = self.__dict__.setdefault(\n            \"_configured\", self.data[\"get_alarm_configure\"].copy()\n        )\n")],
  '''
  from demolib import *
  from kasa import Module

  async def main():
      d = await device("H100(EU)_1.0_1.5.10.json")
      m = d.modules[Module.Alarm]
      await m.set_alarm_volume("low")
      d._last_update["get_alarm_configure"] = {**d._last_update["get_alarm_configure"], "duration": 77}
      await m.set_alarm_volume("high")
      return str(d.sent[-1])

  s = run(main())
  expect("'duration': 77" in s, s)
  ''')

S("b40-enable-transition-swaps", "C29",
  "enabling smooth transitions sets the off duration to the one for turning on",
  "a light whose two transition times differ",
  [("kasa/smart/modules/lighttransition.py", "                    \"off_state\": {\n                        \"enable\": enable,\n                        \"duration\": self._off_state[\"duration\"],",
    "                    \"off_state\": {\n                        \"enable\": enable,\n                        \"duration\": self._on_state[\"duration\"],")],
  '''
  from demolib import *
  from kasa import Module

  async def main():
      def edit(data):
          g = data["get_on_off_gradually_info"]
          g["on_state"]["duration"], g["off_state"]["duration"] = 3, 9

      d = await device("L530E(EU)_3.0_1.1.6.json", edit)
      await d.modules[Module.LightTransition].set_enabled(True)
      return [q["set_on_off_gradually_info"] for q in d.sent if "set_on_off_gradually_info" in q]

  r = run(main())
  for q in r:
      if "off_state" in q:
          expect(q["off_state"]["duration"] == 9, q)
  expect(len(r) == 2, r)
  ''')

S("b41-alarm-longest-duration", "C30",
  "the alarm refuses only durations above an hour",
  "an alarm played for a duration between ten minutes and an hour",
  [("kasa/smart/modules/alarm.py", "        if duration < 1 or duration > DURATION_MAX:", "        if duration < 1 or duration // 60 > DURATION_MAX // 10:")],
  '''
  from demolib import *
  from kasa import Module

  async def main():
      d = await device("H100(EU)_1.0_1.5.10.json")
      try:
          await d.modules[Module.Alarm].play(duration=601)
      except ValueError:
          pass
      return d.sent

  r = run(main())
  expect(r == [], r)
  ''')

S("b43-firmware-error-goes-on", "C31",
  "a failed download is reported as still running",
  "a firmware download that fails",
  [("kasa/smart/modules/firmware.py", "                elif state.status < 0:\n", "                elif state.status < -1:\n")],
  '''
  from demolib import *
  from kasa import Module
  from kasa.smart.modules.firmware import UpdateInfo

  async def main():
      d = await device("L530E(EU)_3.0_1.1.6.json")
      fw = d.modules[Module.Firmware]
      fw._firmware_update_info = UpdateInfo.from_dict({"type": 1, "fw_ver": "2.0.0", "release_date": "2024-01-01", "release_note": "x", "fw_size": 1, "need_to_upgrade": True})
      d.modules[Module.Cloud].__class__ = type("C", (d.modules[Module.Cloud].__class__,), {"is_connected": property(lambda s: True), "__module__": "x.y"})
      n = [0]

      async def call(method, params=None):
          n[0] += 1
          if method == "get_fw_download_state":
              st = -1 if n[0] < 5 else 0
              return {"get_fw_download_state": {"status": st, "download_progress": 0, "reboot_time": 1, "upgrade_time": 1, "auto_upgrade": False}}
          return {}

      fw.call = call
      with NoSleep():
          return await fw.update()

  r = run(main())
  expect(r["status"] == -1, r)
  ''')

S("b44-vacuum-pause-docked", "C32",
  "pausing a vacuum that returns home with an error does not stop it",
  "a vacuum going home after an error",
  [("kasa/smart/modules/clean.py", "        if self.status is Status.GoingHome:\n            return await self.set_return_home(False)\n",
    "        if self.status is Status.GoingHome and self.battery > 20:\n            return await self.set_return_home(False)\n")],
  '''
  from demolib import *
  from kasa import Module

  async def main():
      def edit(data):
          data["getVacStatus"].update({"status": 4, "err_status": [0]})
          data["getBatteryInfo"]["battery_percentage"] = 9

      d = await device("RV20 Max Plus(EU)_1.0_1.0.7.json", edit)
      await d.modules[Module.Clean].pause()
      return str(d.sent)

  s = run(main())
  expect("setSwitchCharge" in s, s)
  ''')

S("b57-refused-login-ends-search", "C33",
  "trying all connections ends when one attempt is refused, though a later one would work",
  "a device that refuses the login of one of the wrong protocols",
  [("kasa/discover.py", "                if on_attempt:\n                    ca = ConnectAttempt(*key[:4])\n                    on_attempt(ca, False)\n            else:",
    "                if on_attempt:\n                    ca = ConnectAttempt(*key[:4])\n                    on_attempt(ca, False)\n                if isinstance(ex, AuthenticationError):\n                    break\n            else:"),
   ("kasa/discover.py", "from kasa.exceptions import (\n", "from kasa.exceptions import (\n    AuthenticationError,\n")],
  '''
  from demolib import *
  import kasa.device_factory as df
  from kasa import AuthenticationError
  from kasa.discover import Discover

  async def main():
      n = [0]

      async def connect(config, protocol):
          n[0] += 1
          if n[0] == 1:
              raise AuthenticationError("refused")
          if n[0] == 3:
              return "device"
          raise TimeoutError

      df._connect = connect
      return await Discover.try_connect_all("127.0.0.1")

  r = run(main())
  expect(r == "device", r)
  ''')

S("b46-protocols-left-open", "C33",
  "after a working connection was found by trying all, the attempt is not closed when its callback fails",
  "a device found at the last attempts, with a callback",
  [("kasa/discover.py", "            finally:\n                await prot.close()\n        return None",
    "            if \"dev\" not in locals():\n                await prot.close()\n        return None")],
  '''
  from demolib import *
  import asyncio
  import kasa.device_factory as df
  from kasa.discover import Discover

  async def main():
      seen = []

      async def connect(config, protocol):
          seen.append([protocol, 0])
          inner = protocol.close

          async def close(e=seen[-1], inner=inner):
              e[1] += 1
              await inner()

          protocol.close = close
          raise asyncio.CancelledError

      df._connect = connect
      try:
          await Discover.try_connect_all("127.0.0.1")
      except asyncio.CancelledError:
          pass
      return [n for _, n in seen]

  r = run(main())
  expect(r == [1], r)
  ''')

S("b47-alias-latin", "C34",
  "names are sent in a single-byte encoding when they fit one",
  "a name with an accented letter",
  [("kasa/smart/smartdevice.py", "            {\"set_device_info\": {\"nickname\": base64.b64encode(alias.encode()).decode()}}",
    "            {\n                \"set_device_info\": {\n                    \"nickname\": base64.b64encode(\n                        alias.encode(\"latin-1\" if max(alias, default=\"\") < \"\\u0100\" else \"utf-8\")\n                    ).decode()\n                }\n            }")],
  '''
  from demolib import *

  async def main():
      d = await device("L530E(EU)_3.0_1.1.6.json")
      await d.set_alias("K\\u00fcche")
      await d.update()
      return d.alias

  try:
      r = run(main())
  except UnicodeDecodeError as ex:
      fail(repr(ex))
  expect(r == "K\\u00fcche", r)
  ''')

S("b48-wifi-password-stripped", "C34",
  "white space at the ends of a network's password is removed",
  "joining a network whose password ends with a space",
  [("kasa/smart/smartdevice.py", "                \"password\": base64.b64encode(password.encode()).decode(),\n                \"ssid\"",
    "                \"password\": base64.b64encode(password.strip().encode()).decode(),\n                \"ssid\"")],
  '''
  from demolib import *
  import base64
  from kasa import Credentials

  async def main():
      d = await device("L530E(EU)_3.0_1.1.6.json")
      d.config.credentials = Credentials("u", "p")
      try:
          await d.wifi_join("net", "secret ")
      except Exception:
          pass
      return d.sent[-1]["set_qs_info"]["wireless"]["password"]

  r = base64.b64decode(run(main()))
  expect(r == b"secret ", r)
  ''')

S("b58-rule-id-prefix", "C35",
  "deleting a rule deletes the first one whose id starts with the given text",
  "an id that is the beginning of another rule's id",
  [("kasa/cli/schedule.py", "filter(lambda rule: (rule.id == id), schedule.rules)", "filter(lambda rule: rule.id.startswith(id), schedule.rules)")],
  '''
  from demolib import *
  from kasa.cli.schedule import schedule

  def edit(info):
      rule = {"name": "x", "enable": 1, "wday": [1, 1, 1, 1, 1, 1, 1], "repeat": 1, "sact": 1, "stime_opt": 0, "smin": 1, "eact": -1}
      info["schedule"] = {"get_rules": {"rule_list": [{**rule, "id": "AB1"}, {**rule, "id": "AB"}], "version": 2, "err_code": 0}}

  async def main():
      d = await device("HS110(EU)_1.0_1.2.5.json", edit)
      gone = []

      async def delete(rule):
          gone.append(rule.id)

      d.modules["schedule"].delete_rule = delete
      from asyncclick.testing import CliRunner
      r = await CliRunner().invoke(schedule, ["delete", "--id", "AB"], obj=d)
      return gone, r.output

  s = run(main())
  expect(s[0] == ["AB"], s)
  ''')

S("b50-toggle-child-of-parent", "C35",
  "toggling decides by the state of the strip instead of the chosen socket",
  "a socket that is off in a strip that is on",
  [("kasa/cli/device.py", "    if dev.is_on:\n        echo(f\"Turning off {dev.alias}\")",
    "    if (dev.parent or dev).is_on:\n        echo(f\"Turning off {dev.alias}\")")],
  '''
  from demolib import *
  from kasa.cli.device import toggle

  async def main():
      def edit(data):
          for i, c in enumerate(data["system"]["get_sysinfo"]["children"]):
              c["state"] = 0 if i == 0 else 1

      d = await device("KP303(UK)_1.0_1.0.3.json", edit)
      from asyncclick.testing import CliRunner
      c = d.children[0]
      await CliRunner().invoke(toggle, [], obj=c)
      return str(d.sent)

  s = run(main())
  expect("'state': 1" in s, s)
  ''')

S("b51-preset-temperature-zero", "C35",
  "a preset's setting of 0 given on the command line is ignored",
  "modifying a preset to hue 0",
  [("kasa/cli/light.py", "    if hue is not None and preset.hue is not None:", "    if hue and preset.hue is not None:")],
  '''
  from demolib import *
  from kasa.cli.light import presets_modify

  async def main():
      def edit(data):
          data["get_preset_rules"]["states"][0].update({"hue": 120, "saturation": 50, "brightness": 40, "color_temp": 0})

      d = await device("L530E(EU)_3.0_1.1.6.json", edit)
      from asyncclick.testing import CliRunner
      await CliRunner().invoke(presets_modify, ["0", "--hue", "0"], obj=d)
      return str(d.sent)

  s = run(main())
  expect("'hue': 0" in s, s)
  ''')

S("b52-dark-but-on", "C20",
  "a light state that is on with brightness 0 is sent as on",
  "a light state with light_on and brightness 0",
  [("kasa/iot/modules/light.py", "            if state_dict.get(\"brightness\") == 0:\n                state_dict[\"on_off\"] = 0\n                del state_dict[\"brightness\"]\n",
    "            if state_dict.get(\"brightness\") == 0 and not state.light_on:\n                state_dict[\"on_off\"] = 0\n                del state_dict[\"brightness\"]\n")],
  """
  from demolib import *
  from kasa import LightState, Module

  async def main():
      d = await device("KL130(US)_1.0_1.8.11.json")
      await d.modules[Module.Light].set_state(LightState(light_on=True, brightness=0))
      return str(d.sent)

  s = run(main())
  expect("'on_off': 0" in s and "'brightness': 0" not in s, s)
  """)

S("b61-swapped-child-stays", "C22",
  "a child that was removed stays when another one was added since the last update",
  "a hub of which one child is replaced between two updates",
  [("kasa/smart/smartdevice.py", "        removed_ids = existing_child_ids - child_ids\n",
    "        if len(child_ids) == len(existing_child_ids):\n            return changed\n        removed_ids = existing_child_ids - child_ids\n")],
  """
  from demolib import *

  async def main():
      d = await device("H100(EU)_1.0_1.5.10.json")
      old = [c.device_id for c in d.children][0]
      for q in ("get_child_device_list", "get_child_device_component_list"):
          x = d.protocol._transport.info[q]
          for c in x[[k for k in x if k.startswith("child")][0]]:
              if c["device_id"] == old:
                  c["device_id"] = "NEW"
      kids = d.protocol._transport.child_protocols
      kids["NEW"] = kids.pop(old)
      await d.update()
      return old, [c.device_id for c in d.children]

  old, r = run(main())
  expect(old not in r, r)
  """)

S("b54-strip-month-without-year", "C24",
  "the daily statistics of a strip ignore the month unless a year is given",
  "daily statistics of a strip for a month of this year",
  [("kasa/iot/iotstrip.py", "            \"get_daily_stats\", {\"year\": year, \"month\": month, \"kwh\": kwh}",
    "            \"get_daily_stats\",\n            {\"year\": year, \"month\": year and month, \"kwh\": kwh},")],
  """
  from demolib import *
  from datetime import datetime
  from kasa import Module

  async def main():
      d = await device("HS300(US)_1.0_1.0.10.json")
      m = datetime.now().month % 12 + 1
      sent = []
      for k in d.children:
          inner = k._query_helper

          async def helper(target, cmd, arg=None, child_ids=None, inner=inner):
              sent.append(arg)
              return await inner(target, cmd, arg, child_ids)

          k._query_helper = helper
      try:
          await d.modules[Module.Energy].get_daily_stats(month=m)
      except Exception as ex:
          sent.append(repr(ex))
      return m, sent

  m, s = run(main())
  expect(s and all(isinstance(a, dict) and a["month"] == m for a in s), (m, s))
  """)

S("b59-lower-case-ids-stay", "C36",
  "lower case letters of identifiers are kept in dumped information",
  "a device with lower case identifiers",
  [("devtools/dump_devinfo.py", '                if isinstance(x, str) and "REDACT" in x:\n                    return re.sub(r"\\w", "0", x)\n',
    '                if isinstance(x, str) and "REDACT" in x:\n                    return re.sub(r"[A-Z0-9_]", "0", x)\n')],
  '''
  from demolib import *
  from devtools.dump_devinfo import get_legacy_fixture
  from kasa.protocols import IotProtocol

  def handler(req):
      if list(req) == ["system"]:
          return {"system": {"get_sysinfo": {"model": "HS100(EU)", "hw_ver": "1.0", "sw_ver": "1.0.0 a", "deviceId": "8006abcdef0123456789abcd", "err_code": 0}}}
      return {m: {"err_code": -1, "err_msg": "module not support"} for m in req}

  r = run(get_legacy_fixture(IotProtocol(transport=Fake(handler)), discovery_info=None))
  v = r.data["system"]["get_sysinfo"]["deviceId"]
  expect(set(v) == {"0"}, v)
  ''')

S("b60-discovery-as-answer", "C36",
  "the owner's account id and the group's name stay in the dumped discovery information",
  "a device with an owner that is found by discovery",
  [("devtools/dump_devinfo.py", '    discovery_result = None\n    if discovery_info:\n        final["discovery_result"] = redact_data(\n            discovery_info, _wrap_redactors(NEW_DISCOVERY_REDACTORS)\n',
    '    discovery_result = None\n    if discovery_info:\n        final["discovery_result"] = redact_data(\n            discovery_info, _wrap_redactors(SMART_REDACTORS)\n')],
  '''
  from demolib import *
  from devtools.dump_devinfo import get_smart_fixtures

  def one(method, params):
      if method == "component_nego":
          return {"component_list": [{"id": "device", "ver_code": 1}]}
      if method == "get_device_info":
          return {"model": "P100", "type": "SMART.TAPOPLUG", "device_id": "80AA", "hw_ver": "1.0", "fw_ver": "1.0.0 a", "specs": "EU", "mac": "AA-BB-CC-DD-EE-FF"}
      return {"error_code": -1008}

  info = {"error_code": 0, "result": {"device_id": "1234567890AB", "owner": "ABCDEF0123456789ABCD", "group_name": "TXkgaG9tZQ==", "device_model": "P100(EU)", "device_type": "SMART.TAPOPLUG"}}
  r = run(get_smart_fixtures(smart(multi(one)), discovery_info=info, batch_size=5))
  v = str(r[0].data["discovery_result"])
  expect("ABCDEF" not in v and "TXkgaG9tZQ" not in v, v)
  ''')

S("b62-cold-is-no-warning", "C37",
  "a temperature below the comfort range gives no warning",
  "a sensor that reports its temperature exception as a negative number",
  [("kasa/smart/modules/temperaturesensor.py", 'self._device.sys_info.get("current_temp_exception", 0) != 0', 'self._device.sys_info.get("current_temp_exception", 0) > 0')],
  '''
  from demolib import *
  from kasa import Module

  def edit(d):
      d["get_device_info"]["current_temp_exception"] = -2.5

  d = run(device("T315(EU)_1.0_1.7.0.json", edit, protocol="SMART.CHILD"))
  expect(d.modules["TemperatureSensor"].temperature_warning is True, d.modules["TemperatureSensor"].temperature_warning)
  ''')

S("b63-name-stripped", "C38",
  "spaces around the name of a device are lost",
  "a device whose name ends with a space",
  [("kasa/smart/smartdevice.py", "return base64.b64decode(nickname).decode()\n", "return base64.b64decode(nickname).decode().strip()\n")],
  '''
  from demolib import *
  from base64 import b64encode

  def edit(d):
      d["get_device_info"]["nickname"] = b64encode(b"Lamp ").decode()

  d = run(device("L530E(EU)_3.0_1.1.6.json", edit))
  expect(d.alias == "Lamp ", repr(d.alias))
  ''')

S("b64-month-of-days", "C39",
  "the old name for monthly statistics of a strip gives daily ones",
  "the old name on a strip with energy metering",
  [("kasa/interfaces/energy.py", '"get_monthstat": "get_monthly_stats"', '"get_monthstat": "get_daily_stats"')],
  '''
  from demolib import *
  import warnings
  from kasa import Module
  warnings.simplefilter("ignore")

  async def main():
      d = await device("HS300(US)_1.0_1.0.10.json")
      e = d.modules[Module.Energy]
      return e.get_monthstat == e.get_monthly_stats

  expect(run(main()), "get_monthstat")
  ''')

S("b65-update-info-of-v2", "C40",
  "automatic updates of devices with newer firmware components are not queried",
  "a device with version 3 of the firmware component",
  [("kasa/smart/modules/firmware.py", '        if self.supported_version > 1:\n            return {"get_auto_update_info": None}', '        if self.supported_version == 2:\n            return {"get_auto_update_info": None}')],
  '''
  from demolib import *
  from kasa import Module

  def edit(d):
      for c in d["component_nego"]["component_list"]:
          if c["id"] == "firmware":
              c["ver_code"] = 3
      d["get_auto_update_info"] = {"enable": True, "random_range": 120, "time": 180}

  async def main():
      d = await device("L530E(EU)_3.0_1.1.6.json", edit)
      await d.update()
      return d

  d = run(main())
  try:
      v = d.features["auto_update_enabled"].value
  except Exception as ex:
      v = repr(ex)
  expect(v is True, v)
  ''')

S("b66-meter-named-last", "C40",
  "a plug whose first feature is energy metering has none",
  "a legacy device that names its features in another order",
  [("kasa/iot/iotdevice.py", 'return "ENE" in self._legacy_features', 'return self.sys_info.get("feature", "").endswith(":ENE")')],
  '''
  from demolib import *
  from kasa import Module

  def edit(d):
      d["system"]["get_sysinfo"]["feature"] = "ENE:TIM"

  d = run(device("HS110(EU)_1.0_1.2.5.json", edit))
  expect(d.has_emeter and Module.Energy in d.modules, list(d.modules))
  ''')

S("b69-battery-state-forgotten", "C41",
  "reading the mode of a thermostat removes its low battery state",
  "a thermostat with an almost empty battery, its states read after its mode",
  [("kasa/smart/modules/temperaturecontrol.py", '        states = self.states\n        # Discard known extra states, and report on unknown extra states\n        states.discard("low_battery")\n', '        states = self._device.sys_info["trv_states"]\n        # Discard known extra states, and report on unknown extra states\n        if "low_battery" in states:\n            states.remove("low_battery")\n')],
  '''
  from demolib import *

  def edit(d):
      d["get_device_info"]["trv_states"] = ["low_battery", "heating"]
      d["get_device_info"]["frost_protection_on"] = False

  d = run(device("KE100(EU)_1.0_2.8.0.json", edit, protocol="SMART.CHILD"))
  m = d.modules["TemperatureControl"]
  m.mode
  expect("low_battery" in m.states, m.states)
  ''')

S("b70-questions-early", "C42",
  "the questions are asked in whole seconds, so a search ends before its time",
  "a search whose time is no multiple of its packets (as the default one)",
  [("kasa/discover.py", "sleep_between_packets = self.discovery_timeout / self.discovery_packets", "sleep_between_packets = self.discovery_timeout // self.discovery_packets")],
  '''
  import asyncio
  from unittest.mock import MagicMock
  from demolib import *
  from kasa import discover as d

  slept = []

  async def sleep(n, real=asyncio.sleep):
      slept.append(n)
      await real(0)

  async def main():
      p = d._DiscoverProtocol(discovery_timeout=5, discovery_packets=3)
      p.transport = MagicMock()
      real, d.asyncio.sleep = asyncio.sleep, sleep
      try:
          await p.do_discover()
      finally:
          asyncio.sleep = real

  run(main())
  expect(abs(sum(slept) - 5) < 0.01, slept)
  ''')

S("b71-last-address", "C42",
  "a device given by name is searched at the last address of the name",
  "a name with two addresses",
  [("kasa/discover.py", "ip = adrrinfo[0][4][0]", "ip = adrrinfo[-1][4][0]")],
  '''
  import asyncio, socket
  from unittest.mock import MagicMock
  from demolib import *
  from kasa import Discover, KasaException

  where = []

  async def main():
      loop = asyncio.get_running_loop()

      async def resolve(*a, **k):
          return [(2, 2, 17, "", ("10.0.0.1", 0)), (2, 2, 17, "", ("10.0.0.2", 0))]

      async def endpoint(factory, **k):
          p = factory()
          t = MagicMock()
          t.sendto = lambda data, addr: where.append(addr[0])
          p.connection_made(t)
          return t, p

      loop.getaddrinfo, loop.create_datagram_endpoint = resolve, endpoint
      try:
          await Discover.discover_single("plug", discovery_timeout=0)
      except KasaException:
          pass

  run(main())
  expect(set(where) == {"10.0.0.1"}, where)
  ''')

S("b72-masked-when-debugging", "C43",
  "a legacy device found while debug logging is on gets the masked answer instead of its own",
  "discovery of a legacy device with debug logging on",
  [("kasa/discover.py",
    '            data = redact_data(info, IOT_REDACTORS) if Discover._redact_data else info\n            _LOGGER.debug("[DISCOVERY] %s << %s", config.host, pf(data))\n\n        device_class = cast(type[IotDevice]',
    '            info = redact_data(info, IOT_REDACTORS) if Discover._redact_data else info\n            _LOGGER.debug("[DISCOVERY] %s << %s", config.host, pf(info))\n\n        device_class = cast(type[IotDevice]')],
  '''
  import logging
  from demolib import *
  from kasa import DeviceConfig
  from kasa.discover import Discover

  info = {"system": {"get_sysinfo": fixture("iot/HS110(EU)_1.0_1.2.5.json")["system"]["get_sysinfo"]}}
  info["system"]["get_sysinfo"]["mac"] = "50:C7:BF:12:34:56"
  logging.getLogger("kasa").addHandler(logging.NullHandler())
  logging.getLogger("kasa").propagate = False
  for level in (logging.WARNING, logging.DEBUG):
      logging.getLogger("kasa").setLevel(level)

      async def main():
          dev = Discover._get_device_instance_legacy(info, DeviceConfig("127.0.0.1"))
          expect(dev.mac == "50:C7:BF:12:34:56", (level, dev.mac))

      run(main())
  ''')

S("b73-list-masked-in-place", "C43",
  "with debug logging on the entries of lists in answers are masked themselves, not copies of them",
  "debug logging and a device whose answers have lists with names or identifiers",
  [("kasa/protocols/protocol.py",
    "            redacted[key] = [redact_data(item, redactors) for item in value]",
    "            for i, item in enumerate(value):\n                value[i] = redact_data(item, redactors)")],
  '''
  import logging
  from demolib import *

  logging.getLogger("kasa").addHandler(logging.NullHandler())
  logging.getLogger("kasa").propagate = False
  for level in (logging.WARNING, logging.DEBUG):
      logging.getLogger("kasa").setLevel(level)

      async def main():
          answer = lambda m, p: {"child_device_list": [{"device_id": "802E2AA5B4A1D8F60000000000000000", "nickname": "TmFtZQ=="}], "start_index": 0, "sum": 1}
          p = smart(multi(answer))
          r = await p.query({"get_child_device_list": None})
          got = r["get_child_device_list"]["child_device_list"][0]
          expect(got["nickname"] == "TmFtZQ==", (level, got))

      run(main())
  ''')

S("b74-forgotten-while-asking", "C44",
  "while an update of a legacy device is under way nothing is known of it, so commands given meanwhile fail",
  "a command that looks at the device's state, given while an update waits for the device",
  [("kasa/iot/iotdevice.py",
    "        responses = [\n            await self.protocol.query(request) for request in request_list if request\n        ]\n",
    "        previous, self._last_update = self._last_update, {}\n        responses = [\n            await self.protocol.query(request) for request in request_list if request\n        ]\n"),
   ("kasa/iot/iotdevice.py",
    "        update: dict = self._last_update.copy() if self._last_update else {}\n",
    "        update: dict = previous.copy() if previous else {}\n")],
  '''
  import asyncio
  from demolib import *
  from kasa import Module

  async def main():
      dev = await device("KL130(US)_1.0_1.8.11.json")
      t = dev.protocol
      inner = t.query
      gate = asyncio.Event()

      async def query(request, retry_count=3):
          if "get_sysinfo" in request.get("system", {}):
              await gate.wait()
          return await inner(request, retry_count)

      t.query = query
      up = asyncio.ensure_future(dev.update())
      await asyncio.sleep(0.01)
      try:
          await dev.modules[Module.Light].set_brightness(33)
      except Exception as ex:
          gate.set()
          await asyncio.gather(up, return_exceptions=True)
          fail(repr(ex))
      gate.set()
      await up
      expect(dev.modules[Module.Light].brightness == 33, dev.modules[Module.Light].brightness)

  run(main())
  ''')

S("b75-sockets-made-twice", "C44",
  "two first updates of a strip at the same time each make the sockets, so the first leaves ones that are not ready",
  "two first updates of a legacy strip at the same time",
  [("kasa/iot/iotstrip.py",
    "        # Super initializes modules and features\n        await super().update(update_children)\n\n        initialize_children = not self.children\n",
    "        initialize_children = not self.children\n\n        # Super initializes modules and features\n        await super().update(update_children)\n")],
  '''
  import asyncio
  from demolib import *
  from kasa.iot import IotStrip
  from kasa.protocols import IotProtocol

  fx = fixture("iot/HS300(US)_1.0_1.0.10.json")

  async def main():
      async def answer(req):
          await asyncio.sleep(0.001)
          return {m: {k: fx.get(m, {}).get(k, {"err_code": -1}) for k in cmds} for m, cmds in req.items() if m != "context"}

      dev = IotStrip("127.0.0.1", protocol=IotProtocol(transport=Fake(answer)))
      two = asyncio.ensure_future(dev.update())
      await dev.update()
      expect(all(len(k.features) > 3 for k in dev.children), [len(k.features) for k in dev.children])
      await two

  run(main())
  ''')

S("b76-refused-duration-kept", "C45",
  "a duration the alarm refused is kept: it is shown as set, and sent along with the next change of sound or volume",
  "a command to the alarm that fails, and another one (or a look) before the next update",
  [("kasa/smart/modules/alarm.py",
    "        payload = self.data[\"get_alarm_configure\"].copy()\n        payload[\"duration\"]",
    "        payload = self.data[\"get_alarm_configure\"]\n        payload[\"duration\"]")],
  '''
  from demolib import *
  from kasa import Module
  from kasa.exceptions import KasaException

  async def main():
      dev = await device("H100(EU)_1.0_1.5.10.json")
      alarm = dev.modules[Module.Alarm]
      was = alarm.alarm_duration
      inner = dev.protocol.query

      async def query(request, retry_count=3):
          raise KasaException("gone")

      dev.protocol.query = query
      try:
          await alarm.set_alarm_duration(was + 7)
      except KasaException:
          pass
      dev.protocol.query = inner
      expect(alarm.alarm_duration == was, (alarm.alarm_duration, was))

  run(main())
  ''')

S("b77-refused-effect-shown", "C45",
  "the brightness of an effect that the bulb did not take is shown as the effect's brightness",
  "an effect running, and a command to change its brightness that fails",
  [("kasa/smart/modules/lighteffect.py",
    "        new_effect = self._get_effect_data(effect_id=effect_id).copy()\n",
    "        new_effect = self._get_effect_data(effect_id=effect_id)\n")],
  '''
  from demolib import *
  from kasa import Module
  from kasa.exceptions import KasaException

  def running(d):
      d["get_device_info"]["dynamic_light_effect_enable"] = True
      d["get_device_info"]["dynamic_light_effect_id"] = "L1"
      d["get_dynamic_light_effect_rules"]["enable"] = True
      d["get_dynamic_light_effect_rules"]["current_rule_id"] = "L1"

  async def main():
      dev = await device("L530E(EU)_3.0_1.1.6.json", running)
      eff = dev.modules[Module.LightEffect]
      was = eff.brightness

      async def query(request, retry_count=3):
          raise KasaException("gone")

      dev.protocol.query = query
      try:
          await eff.set_brightness(was - 7 if was > 7 else was + 7)
      except KasaException:
          pass
      expect(eff.brightness == was, (eff.brightness, was))

  run(main())
  ''')
