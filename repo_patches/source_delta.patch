From a6d8eb3328c238c43ba617106c10fd0dc4beaa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 01/73] fix: query every method when multi requests are
 disabled

With a batch size of one the methods that must not be batched were never
sent and a method answering without a result raised KeyError.  Also do not
send empty batches when some methods are excluded from batching.
---
 kasa/protocols/smartprotocol.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 5539de7..295907f 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -220,18 +220,11 @@ class SmartProtocol(BaseProtocol):
         # Break the requests down as there can be a size limit
         step = self._multi_request_batch_size
         if step == 1:
-            # If step is 1 do not send request batches
-            for request in multi_requests:
-                method = request["method"]
-                req = self.get_smart_request(method, request.get("params"))
-                resp = await self._transport.send(req)
-                self._handle_response_error_code(
-                    resp, method, raise_on_error=raise_on_error
-                )
-                multi_result[method] = resp["result"]
-            return multi_result
+            # If step is 1 do not send request batches, all the methods will be
+            # queried individually
+            multi_requests = []
 
-        for batch_num, i in enumerate(range(0, end, step)):
+        for batch_num, i in enumerate(range(0, len(multi_requests), step)):
             requests_step = multi_requests[i : i + step]
 
             smart_params = {"requests": requests_step}
-- 
2.43.0


From 3d8a759c6086bf248d15bdd20d5fd89a4c772269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:19 +0000
Subject: [PATCH 02/73] fix: complete paged lists of individually queried
 methods

---
 kasa/protocols/smartprotocol.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 295907f..42a12b4 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -305,7 +305,12 @@ class SmartProtocol(BaseProtocol):
                 self._handle_response_error_code(
                     resp, method, raise_on_error=raise_on_error
                 )
-                multi_result[method] = resp.get("result")
+                result = resp.get("result")
+                if iterate_list_pages and result:
+                    await self._handle_response_lists(
+                        result, method, params, retry_count=retry_count
+                    )
+                multi_result[method] = result
         return multi_result
 
     async def _execute_query(
-- 
2.43.0


From 0c055e9ad4d4f9f4192f22f4ac0ad0d57c3ef52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:19 +0000
Subject: [PATCH 03/73] fix: do not fail on paged responses that contain no
 list

---
 kasa/protocols/smartprotocol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 42a12b4..9f38daf 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -383,8 +383,11 @@ class SmartProtocol(BaseProtocol):
                     for key in response_result
                     if isinstance(response_result[key], list)
                 ]
-            )
+            ),
+            None,
         )
+        if response_list_name is None:
+            return
         while (list_length := len(response_result[response_list_name])) < list_sum:
             request = self._get_list_request(method, params, list_length)
             response = await self._execute_query(
-- 
2.43.0


From bdbaeff69f7ff683687f115ee7d172e91f692e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:10 +0000
Subject: [PATCH 04/73] fix: report the total http timeout as a timeout error

The handler caught the library's own TimeoutError, not the builtin one that
aiohttp raises, so a stalled device was reported as a generic error and the
query was not retried.
---
 kasa/httpclient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/httpclient.py b/kasa/httpclient.py
index 31d8dfb..0d57ccc 100644
--- a/kasa/httpclient.py
+++ b/kasa/httpclient.py
@@ -144,7 +144,8 @@ class HttpClient:
             raise _ConnectionError(
                 f"Device connection error: {self._config.host}: {ex}", ex
             ) from ex
-        except (aiohttp.ServerTimeoutError, TimeoutError) as ex:
+        # aiohttp raises the builtin TimeoutError when the total timeout expires
+        except (aiohttp.ServerTimeoutError, asyncio.TimeoutError) as ex:  # noqa: UP041
             raise TimeoutError(
                 "Unable to query the device, "
                 + f"timed out: {self._config.host}: {ex}",
-- 
2.43.0


From 14f8a30e9552ee496cd34f749ec56f9e8fa5f55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:51 +0000
Subject: [PATCH 05/73] fix: keep the request delay after every kind of failed
 http request

Only successful requests and OS errors moved the time of the last request,
so after e.g. a timeout the next request was sent without the delay.
---
 kasa/httpclient.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/kasa/httpclient.py b/kasa/httpclient.py
index 0d57ccc..cbc78a3 100644
--- a/kasa/httpclient.py
+++ b/kasa/httpclient.py
@@ -140,7 +140,6 @@ class HttpClient:
                     ex,
                 )
                 self._wait_between_requests = self.WAIT_BETWEEN_REQUESTS_ON_OSERROR
-            self._last_request_time = time.monotonic()
             raise _ConnectionError(
                 f"Device connection error: {self._config.host}: {ex}", ex
             ) from ex
@@ -155,10 +154,10 @@ class HttpClient:
             raise KasaException(
                 f"Unable to query the device: {self._config.host}: {ex}", ex
             ) from ex
-
-        # For performance only request system time if waiting is enabled
-        if self._wait_between_requests:
-            self._last_request_time = time.monotonic()
+        finally:
+            # For performance only request system time if waiting is enabled
+            if self._wait_between_requests:
+                self._last_request_time = time.monotonic()
 
         return resp.status, response_data
 
-- 
2.43.0


From aa8cf7ada238e16146ecad85fb28e9f1ccc700bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:11 +0000
Subject: [PATCH 06/73] fix: raise a library exception for klap responses that
 are not json

---
 kasa/transports/klaptransport.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kasa/transports/klaptransport.py b/kasa/transports/klaptransport.py
index 8253e0a..7edb611 100644
--- a/kasa/transports/klaptransport.py
+++ b/kasa/transports/klaptransport.py
@@ -391,13 +391,12 @@ class KlapTransport(BaseTransport):
                 assert isinstance(response_data, bytes)
             try:
                 decrypted_response = self._encryption_session.decrypt(response_data)
+                json_payload = json_loads(decrypted_response)
             except Exception as ex:
                 raise KasaException(
                     f"Error trying to decrypt device {self._host} response: {ex}"
                 ) from ex
 
-            json_payload = json_loads(decrypted_response)
-
             _LOGGER.debug("Device %s query response received", self._host)
 
             return json_payload
-- 
2.43.0


From 45e914f4629f6b8ac0461d393b142bde460e9047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 07/73] fix: report requests a camera hub fails to forward to a
 child

---
 kasa/protocols/smartcamprotocol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kasa/protocols/smartcamprotocol.py b/kasa/protocols/smartcamprotocol.py
index 9bf40f7..d72370d 100644
--- a/kasa/protocols/smartcamprotocol.py
+++ b/kasa/protocols/smartcamprotocol.py
@@ -249,7 +249,10 @@ class _ChildCameraProtocolWrapper(SmartProtocol):
         raise_on_error = len(requests) == 1
 
         for index_id, response in enumerate(responses):
-            response_data = response["result"]["response_data"]
+            # The parent does not include a result if it fails to forward a request
+            response_data = (response.get("result") or {}).get(
+                "response_data", response
+            )
             method = methods[index_id]
             self._handle_response_error_code(
                 response_data, method, raise_on_error=raise_on_error
-- 
2.43.0


From 74eaf1daa18793bfbd72c4ae4c860e87df6f7131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 08/73] fix: raise a library exception for malformed aes
 transport responses

---
 kasa/transports/aestransport.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/kasa/transports/aestransport.py b/kasa/transports/aestransport.py
index 45b963f..82889d0 100644
--- a/kasa/transports/aestransport.py
+++ b/kasa/transports/aestransport.py
@@ -168,6 +168,15 @@ class AesTransport(BaseTransport):
             raise AuthenticationError(msg, error_code=error_code)
         raise DeviceError(msg, error_code=error_code)
 
+    def _get_result_value(self, resp_dict: dict, key: str) -> str:
+        """Return a value from the result of a successful response."""
+        try:
+            return resp_dict["result"][key]
+        except (KeyError, TypeError) as ex:
+            raise KasaException(
+                f"{self._host} responded without a {key}: {resp_dict}"
+            ) from ex
+
     async def send_secure_passthrough(self, request: str) -> dict[str, Any]:
         """Send encrypted message as passthrough."""
         if self._state is TransportState.ESTABLISHED and self._token_url:
@@ -202,7 +211,7 @@ class AesTransport(BaseTransport):
             resp_dict, "Error sending secure_passthrough message"
         )
 
-        raw_response: str = resp_dict["result"]["response"]
+        raw_response: str = self._get_result_value(resp_dict, "response")
 
         try:
             response = self._encryption_session.decrypt(raw_response.encode())
@@ -268,7 +277,7 @@ class AesTransport(BaseTransport):
 
         resp_dict = await self.send_secure_passthrough(request)
         self._handle_response_error_code(resp_dict, "Error logging in")
-        login_token = resp_dict["result"]["token"]
+        login_token = self._get_result_value(resp_dict, "token")
         self._token_url = self._app_url.with_query(f"token={login_token}")
         self._state = TransportState.ESTABLISHED
 
@@ -332,7 +341,7 @@ class AesTransport(BaseTransport):
 
         self._handle_response_error_code(resp_dict, "Unable to complete handshake")
 
-        handshake_key = resp_dict["result"]["key"]
+        handshake_key = self._get_result_value(resp_dict, "key")
 
         if (
             cookie := http_client.get_cookie(self.SESSION_COOKIE_NAME)  # type: ignore
-- 
2.43.0


From c071bfc349b7ddd4376f8456037adcfa26567902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:07 +0000
Subject: [PATCH 09/73] fix: report camera handshake replies without data as
 authentication errors

---
 kasa/transports/sslaestransport.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/kasa/transports/sslaestransport.py b/kasa/transports/sslaestransport.py
index eeb2980..5cb2814 100644
--- a/kasa/transports/sslaestransport.py
+++ b/kasa/transports/sslaestransport.py
@@ -525,7 +525,7 @@ class SslAesTransport(BaseTransport):
             not resp_dict
             or (error_code := self._get_response_error(resp_dict))
             is not SmartErrorCode.INVALID_NONCE
-            or "nonce" not in resp_dict["result"].get("data", {})
+            or "nonce" not in resp_dict.get("result", {}).get("data", {})
         ):
             _LOGGER.debug("Trying default credentials to %s", self._host)
             local_nonce = secrets.token_bytes(8).hex().upper()
@@ -535,9 +535,9 @@ class SslAesTransport(BaseTransport):
             # INVALID_NONCE means device should perform secure login
             if (
                 default_error_code := self._get_response_error(default_resp_dict)
-            ) is SmartErrorCode.INVALID_NONCE and "nonce" in default_resp_dict[
-                "result"
-            ].get("data", {}):
+            ) is SmartErrorCode.INVALID_NONCE and "nonce" in default_resp_dict.get(
+                "result", {}
+            ).get("data", {}):
                 _LOGGER.debug("Connected to %s with default username", self._host)
                 self._username = self._default_credentials.username
                 error_code = default_error_code
@@ -561,8 +561,10 @@ class SslAesTransport(BaseTransport):
 
         # Device responds with INVALID_NONCE and a "nonce" to indicate ready
         # for secure login. Otherwise error.
-        if error_code is not SmartErrorCode.INVALID_NONCE or (
-            resp_dict and "nonce" not in resp_dict.get("result", {}).get("data", {})
+        if (
+            not resp_dict
+            or error_code is not SmartErrorCode.INVALID_NONCE
+            or "nonce" not in resp_dict.get("result", {}).get("data", {})
         ):
             if (
                 resp_dict
-- 
2.43.0


From fd705e7224dc8bb8fb8e71589c8ff89f91c9ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 10/73] fix: encrypt camera commands after a secure login
 follows a plain one

---
 kasa/transports/sslaestransport.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kasa/transports/sslaestransport.py b/kasa/transports/sslaestransport.py
index 5cb2814..8818d45 100644
--- a/kasa/transports/sslaestransport.py
+++ b/kasa/transports/sslaestransport.py
@@ -473,6 +473,7 @@ class SslAesTransport(BaseTransport):
         lsk = self.generate_encryption_token("lsk", local_nonce, server_nonce, pwd_hash)
         ivb = self.generate_encryption_token("ivb", local_nonce, server_nonce, pwd_hash)
         self._encryption_session = AesEncyptionSession(lsk, ivb)
+        self._send_secure = True
         self._state = TransportState.ESTABLISHED
         _LOGGER.debug("Handshake2 complete ...")
 
-- 
2.43.0


From b26caa4ab9f624d63ae293d08fca90fd4b5cd260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:31 +0000
Subject: [PATCH 11/73] fix: handle unknown error codes in the ssl transport

---
 kasa/transports/ssltransport.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kasa/transports/ssltransport.py b/kasa/transports/ssltransport.py
index e4fef9a..8c1c9b7 100644
--- a/kasa/transports/ssltransport.py
+++ b/kasa/transports/ssltransport.py
@@ -117,7 +117,14 @@ class SslTransport(BaseTransport):
 
     async def _handle_response_error_code(self, resp_dict: Any, msg: str) -> None:
         """Handle response errors to request reauth etc."""
-        error_code = SmartErrorCode(resp_dict.get("error_code"))  # type: ignore[arg-type]
+        error_code_raw = resp_dict.get("error_code")
+        try:
+            error_code = SmartErrorCode.from_int(error_code_raw)
+        except ValueError:
+            _LOGGER.warning(
+                "Device %s received unknown error code: %s", self._host, error_code_raw
+            )
+            error_code = SmartErrorCode.INTERNAL_UNKNOWN_ERROR
         if error_code == SmartErrorCode.SUCCESS:
             return
 
-- 
2.43.0


From d2172db911772d2c5746ce4f719842c34d14f425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:42 +0000
Subject: [PATCH 12/73] fix: redact responses to single smart requests in the
 debug log

---
 kasa/protocols/smartcamprotocol.py | 9 +++++++--
 kasa/protocols/smartprotocol.py    | 6 +++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/kasa/protocols/smartcamprotocol.py b/kasa/protocols/smartcamprotocol.py
index d72370d..027d4a2 100644
--- a/kasa/protocols/smartcamprotocol.py
+++ b/kasa/protocols/smartcamprotocol.py
@@ -19,7 +19,8 @@ from ..transports.sslaestransport import (
     SMART_RETRYABLE_ERRORS,
     SmartErrorCode,
 )
-from .smartprotocol import SmartProtocol
+from .protocol import redact_data
+from .smartprotocol import REDACTORS, SmartProtocol
 
 _LOGGER = logging.getLogger(__name__)
 
@@ -166,10 +167,14 @@ class SmartCamProtocol(SmartProtocol):
         response_data = await self._transport.send(smart_request)
 
         if debug_enabled:
+            if self._redact_data:
+                data = redact_data(response_data, REDACTORS)
+            else:
+                data = response_data
             _LOGGER.debug(
                 "%s << %s",
                 self._host,
-                pf(response_data),
+                pf(data),
             )
 
         if "error_code" in response_data:
diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 9f38daf..ceab61b 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -340,10 +340,14 @@ class SmartProtocol(BaseProtocol):
         response_data = await self._transport.send(smart_request)
 
         if debug_enabled:
+            if self._redact_data:
+                data = redact_data(response_data, REDACTORS)
+            else:
+                data = response_data
             _LOGGER.debug(
                 "%s << %s",
                 self._host,
-                pf(response_data),
+                pf(data),
             )
 
         self._handle_response_error_code(response_data, smart_method)
-- 
2.43.0


From 1bb2774834a5f4be0e2344def7c734a779e41b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:42 +0000
Subject: [PATCH 13/73] fix: do not log the password hash when logging in over
 ssl

---
 kasa/transports/ssltransport.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/transports/ssltransport.py b/kasa/transports/ssltransport.py
index 8c1c9b7..f7622b0 100644
--- a/kasa/transports/ssltransport.py
+++ b/kasa/transports/ssltransport.py
@@ -143,7 +143,8 @@ class SslTransport(BaseTransport):
         """Send request."""
         url = self._app_url
 
-        _LOGGER.debug("Sending %s to %s", request, url)
+        # Not logging the request as logins contain the hashed password
+        _LOGGER.debug("Sending request to %s", url)
 
         status_code, resp_dict = await self._http_client.post(
             url,
-- 
2.43.0


From 08d4efba261b30eef805aa56d6d4633fbfeddeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:05 +0000
Subject: [PATCH 14/73] fix: report iot cameras as unsupported devices instead
 of raising KeyError

---
 kasa/device_factory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kasa/device_factory.py b/kasa/device_factory.py
index ecb0d0a..ad3dbbd 100644
--- a/kasa/device_factory.py
+++ b/kasa/device_factory.py
@@ -142,7 +142,10 @@ def get_device_class_from_sys_info(sysinfo: dict[str, Any]) -> type[IotDevice]:
         # Disabled until properly implemented
         # DeviceType.Camera: IotCamera,
     }
-    return TYPE_TO_CLASS[IotDevice._get_device_type_from_sys_info(sysinfo)]
+    device_type = IotDevice._get_device_type_from_sys_info(sysinfo)
+    if (device_class := TYPE_TO_CLASS.get(device_type)) is None:
+        raise UnsupportedDeviceError(f"Unsupported device type: {device_type.value}")
+    return device_class
 
 
 def get_device_class_from_family(
-- 
2.43.0


From be0575d48af7058dcd04e2f5e948ed06bdf2ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:12 +0000
Subject: [PATCH 15/73] fix: ignore datagrams from other ports before marking a
 host as seen

---
 kasa/discover.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index 8e2b981..1e991ca 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -345,6 +345,9 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
             assert _AesDiscoveryQuery.keypair
 
         ip, port = addr
+        # Ignore anything not sent by a discovery responder
+        if port not in (self.discovery_port, Discover.DISCOVERY_PORT_2):
+            return
         # Prevent multiple entries due multiple broadcasts
         if ip in self.seen_hosts:
             return
@@ -361,11 +364,9 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
             if port == self.discovery_port:
                 json_func = Discover._get_discovery_json_legacy
                 device_func = Discover._get_device_instance_legacy
-            elif port == Discover.DISCOVERY_PORT_2:
+            else:
                 json_func = Discover._get_discovery_json
                 device_func = Discover._get_device_instance
-            else:
-                return
             info = json_func(data, ip)
             if self.on_discovered_raw is not None:
                 self.on_discovered_raw(
-- 
2.43.0


From 8d12628cfe0cd71a3e8fc3cd70659925278543f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:12 +0000
Subject: [PATCH 16/73] fix: report malformed discovery responses as invalid
 devices

---
 kasa/discover.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index 1e991ca..b7e284d 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -375,7 +375,14 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
                         "meta": {"ip": ip, "port": port},
                     }
                 )
-            device = device_func(info, config)
+            try:
+                device = device_func(info, config)
+            except KasaException:
+                raise
+            except Exception as ex:
+                raise KasaException(
+                    f"Unable to create device from discovery response: {ip}: {ex}"
+                ) from ex
         except UnsupportedDeviceError as udex:
             _LOGGER.debug("Unsupported device found at %s << %s", ip, udex)
             self.unsupported_device_exceptions[ip] = udex
-- 
2.43.0


From 53d47684fac782dd2c0a2e38d4e71186f3a285dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:12 +0000
Subject: [PATCH 17/73] fix: report legacy discovery responses without a
 protocol as unsupported

---
 kasa/discover.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index b7e284d..eca0277 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -760,7 +760,13 @@ class Discover:
             https=device_type == "IOT.IPCAMERA",
             login_version=login_version,
         )
-        device.protocol = get_protocol(config)  # type: ignore[assignment]
+        if (protocol := get_protocol(config)) is None:
+            raise UnsupportedDeviceError(
+                f"Unsupported device {config.host} of type {device_type}",
+                discovery_result=info,
+                host=config.host,
+            )
+        device.protocol = protocol
         device.update_from_discover_info(info)
         return device
 
-- 
2.43.0


From 591b9424150ddaee5f94c0d7e5616afdbae3c81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:16 +0000
Subject: [PATCH 18/73] fix: send the alarm volume as the device expects it
 when set by level

---
 kasa/smart/modules/alarm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kasa/smart/modules/alarm.py b/kasa/smart/modules/alarm.py
index cd60218..77f0a45 100644
--- a/kasa/smart/modules/alarm.py
+++ b/kasa/smart/modules/alarm.py
@@ -171,9 +171,9 @@ class Alarm(SmartModule, AlarmInterface):
         self, volume: AlarmVolume | int
     ) -> Annotated[dict, FeatureAttribute()]:
         """Set alarm volume."""
-        self._check_and_convert_volume(volume)
+        target_volume = self._check_and_convert_volume(volume)
         payload = self.data["get_alarm_configure"].copy()
-        payload["volume"] = volume
+        payload["volume"] = target_volume
         return await self.call("set_alarm_configure", payload)
 
     @property
-- 
2.43.0


From 04c602cfe7c910ddfddc55fb3eea7c5403fa95ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:26 +0000
Subject: [PATCH 19/73] fix: validate the brightness given with a color
 temperature

---
 kasa/smart/modules/colortemperature.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kasa/smart/modules/colortemperature.py b/kasa/smart/modules/colortemperature.py
index 32d6e67..1d1ff14 100644
--- a/kasa/smart/modules/colortemperature.py
+++ b/kasa/smart/modules/colortemperature.py
@@ -65,6 +65,10 @@ class ColorTemperature(SmartModule):
                     *valid_temperature_range, temp
                 )
             )
+        if brightness is not None and not 0 <= brightness <= 100:
+            raise ValueError(
+                f"Invalid brightness value: {brightness} (valid range: 0-100%)"
+            )
         params = {"color_temp": temp}
         if brightness:
             params["brightness"] = brightness
-- 
2.43.0


From e67902f7ed9e8a2491b04f9514003f57959442e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:50 +0000
Subject: [PATCH 20/73] fix: validate the brightness of a light state and send
 only known keys

---
 kasa/smart/modules/light.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/light.py b/kasa/smart/modules/light.py
index d548811..2e7ddde 100644
--- a/kasa/smart/modules/light.py
+++ b/kasa/smart/modules/light.py
@@ -116,14 +116,20 @@ class Light(SmartModule, LightInterface):
 
     async def set_state(self, state: LightState) -> dict:
         """Set the light state."""
+        if state.brightness is not None and not 0 <= state.brightness <= 100:
+            raise ValueError(
+                f"Invalid brightness value: {state.brightness} (valid range: 0-100%)"
+            )
         state_dict = asdict(state)
+        # light_on is sent as device_on and transition is not supported
+        del state_dict["light_on"]
+        del state_dict["transition"]
         # brightness of 0 turns off the light, it's not a valid brightness
         if state.brightness == 0:
             state_dict["device_on"] = False
             del state_dict["brightness"]
         elif state.light_on is not None:
             state_dict["device_on"] = state.light_on
-            del state_dict["light_on"]
         else:
             state_dict["device_on"] = True
 
-- 
2.43.0


From 1de5a9156a48a6743f752a3ee46fc512d611931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:10 +0000
Subject: [PATCH 21/73] fix: keep child data of modules that were not queried

---
 kasa/smart/smartchilddevice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/smartchilddevice.py b/kasa/smart/smartchilddevice.py
index 3f730f0..380913f 100644
--- a/kasa/smart/smartchilddevice.py
+++ b/kasa/smart/smartchilddevice.py
@@ -101,7 +101,8 @@ class SmartChildDevice(SmartDevice):
                 resp = await self._handle_modular_update_error(
                     ex, first_update, ", ".join(mod.name for mod in module_queries), req
                 )
-            self._last_update = resp
+            # Only some of the modules may have been queried
+            self._last_update.update(resp)
 
         for module in self.modules.values():
             await self._handle_module_post_update(
-- 
2.43.0


From 63a230e9a799c2b106306ac7959ef1b60d68ac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:16 +0000
Subject: [PATCH 22/73] fix: repeat the initialization when the first update
 failed

---
 kasa/smart/smartdevice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 2e2dc7c..9236778 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -265,7 +265,6 @@ class SmartDevice(Device):
 
         first_update = self._last_update_time is None
         now = time.monotonic()
-        self._last_update_time = now
 
         if first_update:
             await self._negotiate()
@@ -274,6 +273,9 @@ class SmartDevice(Device):
             if cloud_mod := self.modules.get(Module.Cloud):
                 await self._handle_module_post_update(cloud_mod, now, had_query=True)
 
+        # Set only once initialized so that a failed first update can be repeated
+        self._last_update_time = now
+
         resp = await self._modular_update(first_update, now)
 
         children_changed = await self._update_children_info()
-- 
2.43.0


From 81083dabc8a7289daa08e6f728b5af1924157abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:31 +0000
Subject: [PATCH 23/73] fix: raise a library error when the components cannot
 be read

---
 kasa/smart/smartdevice.py       | 4 +++-
 kasa/smartcam/smartcamdevice.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 9236778..f56b4d2 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -224,7 +224,9 @@ class SmartDevice(Device):
         self._info = self._try_get_response(resp, "get_device_info")
 
         # Create our internal presentation of available components
-        self._components_raw = cast(ComponentsRaw, resp["component_nego"])
+        self._components_raw = cast(
+            ComponentsRaw, self._try_get_response(resp, "component_nego")
+        )
 
         self._components = self._parse_components(self._components_raw)
 
diff --git a/kasa/smartcam/smartcamdevice.py b/kasa/smartcam/smartcamdevice.py
index 3beda36..7d0fbe6 100644
--- a/kasa/smartcam/smartcamdevice.py
+++ b/kasa/smartcam/smartcamdevice.py
@@ -214,7 +214,8 @@ class SmartCamDevice(SmartDevice):
         self._update_internal_info(resp)
 
         self._components_raw = cast(
-            ComponentsRaw, resp["getAppComponentList"]["app_component"]
+            ComponentsRaw,
+            self._try_get_response(resp, "getAppComponentList")["app_component"],
         )
         self._components = self._parse_components(self._components_raw)
 
-- 
2.43.0


From cc2208a348a5c8e941e2c102343152b60c7c0314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:31 +0000
Subject: [PATCH 24/73] fix: keep the children when their components cannot be
 read

---
 kasa/smart/smartdevice.py       | 9 ++++++---
 kasa/smartcam/smartcamdevice.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index f56b4d2..8bb5891 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -242,9 +242,12 @@ class SmartDevice(Device):
         if child_info := self._try_get_response(
             self._last_update, "get_child_device_list", {}
         ):
-            changed = await self._create_delete_children(
-                child_info, self._last_update["get_child_device_component_list"]
-            )
+            if child_components := self._try_get_response(
+                self._last_update, "get_child_device_component_list", {}
+            ):
+                changed = await self._create_delete_children(
+                    child_info, child_components
+                )
 
             for info in child_info["child_device_list"]:
                 child_id = info.get("device_id")
diff --git a/kasa/smartcam/smartcamdevice.py b/kasa/smartcam/smartcamdevice.py
index 7d0fbe6..1a9268c 100644
--- a/kasa/smartcam/smartcamdevice.py
+++ b/kasa/smartcam/smartcamdevice.py
@@ -85,9 +85,12 @@ class SmartCamDevice(SmartDevice):
         if child_info := self._try_get_response(
             self._last_update, "getChildDeviceList", {}
         ):
-            changed = await self._create_delete_children(
-                child_info, self._last_update["getChildDeviceComponentList"]
-            )
+            if child_components := self._try_get_response(
+                self._last_update, "getChildDeviceComponentList", {}
+            ):
+                changed = await self._create_delete_children(
+                    child_info, child_components
+                )
 
             for info in child_info["child_device_list"]:
                 child_id = info.get("device_id")
-- 
2.43.0


From 550f46e2d7f0f579a16c58ac8a1b6176285c70a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:31 +0000
Subject: [PATCH 25/73] fix: create camera hub children that do not answer at
 first

---
 kasa/smartcam/smartcamdevice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kasa/smartcam/smartcamdevice.py b/kasa/smartcam/smartcamdevice.py
index 1a9268c..224b623 100644
--- a/kasa/smartcam/smartcamdevice.py
+++ b/kasa/smartcam/smartcamdevice.py
@@ -108,6 +108,7 @@ class SmartCamDevice(SmartDevice):
         """Initialize a smart child device attached to a smartcam device."""
         child_id = info["device_id"]
         child_protocol = _ChildCameraProtocolWrapper(child_id, self.protocol)
+        initial_response: dict | None = None
         try:
             initial_response = await child_protocol.query(
                 {"get_connect_cloud_state": None}
-- 
2.43.0


From 5c4a1246619844c14ec580b4e728be98881d79d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:35 +0000
Subject: [PATCH 26/73] fix: keep the data of strip sockets apart

---
 kasa/iot/iotdevice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index d1de7f9..502f44e 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -429,8 +429,10 @@ class IotDevice(Device):
                 # not supported the response
                 # {'err_code': -1, 'err_msg': 'module not support'}
                 # become top level key/values of the response so check for dict
+                # The last update may be shared with the parent or other children,
+                # so create new dicts instead of updating the existing ones.
                 if isinstance(v, dict):
-                    update.setdefault(k, {}).update(**v)
+                    update[k] = {**update.get(k, {}), **v}
         self._last_update = update
 
         # IOT modules are added as default but could be unsupported post first update
-- 
2.43.0


From 10e80b777c4f9772512013b04858e1d577309a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:14 +0000
Subject: [PATCH 27/73] fix: refresh the system information of strip sockets

---
 kasa/iot/iotstrip.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index a63b3e1..24a281f 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -143,10 +143,12 @@ class IotStrip(IotDevice):
             for child in self._children.values():
                 await child._initialize_modules()
 
-        if update_children:
-            for plug in self.children:
-                if TYPE_CHECKING:
-                    assert isinstance(plug, IotStripPlug)
+        for plug in self.children:
+            if TYPE_CHECKING:
+                assert isinstance(plug, IotStripPlug)
+            # Sockets inherit the system information from the strip
+            plug._set_sys_info(self.sys_info)
+            if update_children:
                 await plug._update()
 
         if not self.features:
-- 
2.43.0


From 03f0cbb2806e4318ecbeeaa2a34b372181fc9ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:04 +0000
Subject: [PATCH 28/73] fix: accept devices without a working energy meter

---
 kasa/iot/modules/emeter.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/kasa/iot/modules/emeter.py b/kasa/iot/modules/emeter.py
index 012bda0..0720e0a 100644
--- a/kasa/iot/modules/emeter.py
+++ b/kasa/iot/modules/emeter.py
@@ -14,17 +14,13 @@ class Emeter(Usage, EnergyInterface):
 
     async def _post_update_hook(self) -> None:
         self._supported = EnergyInterface.ModuleFeature.PERIODIC_STATS
-        if (
-            "voltage_mv" in self.data["get_realtime"]
-            or "voltage" in self.data["get_realtime"]
-        ):
+        # Unsupported modules have no realtime data
+        realtime = self.data.get("get_realtime", {})
+        if "voltage_mv" in realtime or "voltage" in realtime:
             self._supported = (
                 self._supported | EnergyInterface.ModuleFeature.VOLTAGE_CURRENT
             )
-        if (
-            "total_wh" in self.data["get_realtime"]
-            or "total" in self.data["get_realtime"]
-        ):
+        if "total_wh" in realtime or "total" in realtime:
             self._supported = (
                 self._supported | EnergyInterface.ModuleFeature.CONSUMPTION_TOTAL
             )
-- 
2.43.0


From 22481c3da6bb145d6fab99e1f97052fab14af668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:57 +0000
Subject: [PATCH 29/73] fix: calculate on_since across clock and utc offset
 changes

---
 kasa/iot/iotdevice.py     | 11 +++++------
 kasa/iot/iotstrip.py      | 13 +++++--------
 kasa/smart/smartdevice.py |  9 ++++-----
 3 files changed, 14 insertions(+), 19 deletions(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index 502f44e..1af8fa8 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -18,7 +18,7 @@ import functools
 import inspect
 import logging
 from collections.abc import Callable, Mapping, Sequence
-from datetime import datetime, timedelta, tzinfo
+from datetime import UTC, datetime, timedelta, tzinfo
 from typing import TYPE_CHECKING, Any, cast
 from warnings import warn
 
@@ -643,12 +643,11 @@ class IotDevice(Device):
 
         on_time = self._sys_info["on_time"]
 
-        on_since = self.time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
+        # Calculate in UTC as the utc offset may have changed since
+        on_since = self.time.astimezone(UTC) - timedelta(seconds=on_time)
+        if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
             self._on_since = on_since
-        return self._on_since
+        return self._on_since.astimezone(self.timezone)
 
     @property  # type: ignore
     @requires_update
diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index 24a281f..35ab98a 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 import logging
 from collections import defaultdict
-from datetime import datetime, timedelta
+from datetime import UTC, datetime, timedelta
 from typing import TYPE_CHECKING, Any
 
 from ..device_type import DeviceType
@@ -466,14 +466,11 @@ class IotStripPlug(IotPlug):
         info = self._get_child_info()
         on_time = info["on_time"]
 
-        time = self._parent.time
-
-        on_since = time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
+        # Calculate in UTC as the utc offset may have changed since
+        on_since = self._parent.time.astimezone(UTC) - timedelta(seconds=on_time)
+        if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
             self._on_since = on_since
-        return self._on_since
+        return self._on_since.astimezone(self._parent.timezone)
 
     @property  # type: ignore
     @requires_update
diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 8bb5891..da55786 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -634,12 +634,11 @@ class SmartDevice(Device):
             return None
 
         on_time = cast(float, on_time)
-        on_since = self.time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
+        # Calculate in UTC as the utc offset may have changed since
+        on_since = self.time.astimezone(UTC) - timedelta(seconds=on_time)
+        if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
             self._on_since = on_since
-        return self._on_since
+        return self._on_since.astimezone(self.timezone)
 
     @property
     def timezone(self) -> tzinfo:
-- 
2.43.0


From 49aefb2473f8a54084209cf8f3080917161a10ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:57 +0000
Subject: [PATCH 30/73] fix: default to UTC for all unknown timezone indexes

---
 kasa/iot/iottimezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/iot/iottimezone.py b/kasa/iot/iottimezone.py
index 6553834..e10369e 100644
--- a/kasa/iot/iottimezone.py
+++ b/kasa/iot/iottimezone.py
@@ -14,7 +14,7 @@ _LOGGER = logging.getLogger(__name__)
 
 async def get_timezone(index: int) -> tzinfo:
     """Get the timezone from the index."""
-    if index > 109:
+    if index not in TIMEZONE_INDEX:
         _LOGGER.error(
             "Unexpected index %s not configured as a timezone, defaulting to UTC", index
         )
-- 
2.43.0


From f34805ec407774ea1ece7180ba2bbd6c5a547b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:57 +0000
Subject: [PATCH 31/73] fix: report unsupported timezones without a key

---
 kasa/iot/iottimezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/iot/iottimezone.py b/kasa/iot/iottimezone.py
index e10369e..7b85ace 100644
--- a/kasa/iot/iottimezone.py
+++ b/kasa/iot/iottimezone.py
@@ -35,7 +35,7 @@ async def get_timezone_index(tzone: tzinfo) -> int:
     for i in range(110):
         if _is_same_timezone(tzone, await get_timezone(i)):
             return i
-    raise ValueError("Device does not support timezone %s", name)
+    raise ValueError(f"Device does not support timezone {tzone}")
 
 
 async def get_matching_timezones(tzone: tzinfo) -> list[str]:
-- 
2.43.0


From 5c12cd2890de1d957a6e9269f776e5460450f99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:42 +0000
Subject: [PATCH 32/73] fix: compare on_since times of strip sockets across utc
 offset changes

---
 kasa/iot/iotstrip.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index 35ab98a..aee3c49 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -182,7 +182,10 @@ class IotStrip(IotDevice):
         if self.is_off:
             return None
 
-        return min(plug.on_since for plug in self.children if plug.on_since is not None)
+        return min(
+            (plug.on_since for plug in self.children if plug.on_since is not None),
+            key=lambda on_since: on_since.timestamp(),
+        )
 
 
 class StripEmeter(IotModule, Energy):
-- 
2.43.0


From f7ba4d7e44150d04e6401ed2acec270f78527cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:49 +0000
Subject: [PATCH 33/73] fix: use the reported offset for cameras without a
 valid zone id

---
 kasa/smartcam/modules/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/smartcam/modules/time.py b/kasa/smartcam/modules/time.py
index 54ee30e..b2f8aec 100644
--- a/kasa/smartcam/modules/time.py
+++ b/kasa/smartcam/modules/time.py
@@ -53,7 +53,7 @@ class Time(SmartCamModule, TimeInterface):
         try:
             # Zoneinfo will return a DST aware object
             tz: tzinfo = await CachedZoneInfo.get_cached_zone_info(zone_id)
-        except ZoneInfoNotFoundError:
+        except (ZoneInfoNotFoundError, ValueError):
             # timezone string like: UTC+10:00
             timezone_str = timezone_data["timezone"]
             tz = cast(tzinfo, datetime.strptime(timezone_str[-6:], "%z").tzinfo)
-- 
2.43.0


From fe54f79eada925842f4a8f0220aa763865b87ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:31 +0000
Subject: [PATCH 34/73] fix: save presets at the index listed by the device

---
 kasa/iot/modules/lightpreset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/iot/modules/lightpreset.py b/kasa/iot/modules/lightpreset.py
index 3330af6..2dd99e1 100644
--- a/kasa/iot/modules/lightpreset.py
+++ b/kasa/iot/modules/lightpreset.py
@@ -134,7 +134,8 @@ class LightPreset(IotModule, LightPresetInterface):
         if preset_name not in self._presets:
             raise ValueError(f"{preset_name} is not a valid preset: {self.preset_list}")
 
-        index = list(self._presets.keys()).index(preset_name)
+        # Effects listed by the device are not in _presets but do have an index
+        index = self._presets[preset_name].index
         state = asdict(preset_state)
         state = {k: v for k, v in state.items() if v is not None}
         state["index"] = index
-- 
2.43.0


From b23feebf3cbd653266072faef3ffb4e4418cdd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:50 +0000
Subject: [PATCH 35/73] fix: save presets behind effects at their place in the
 list

---
 kasa/smart/modules/lightpreset.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kasa/smart/modules/lightpreset.py b/kasa/smart/modules/lightpreset.py
index 87e96ea..1651739 100644
--- a/kasa/smart/modules/lightpreset.py
+++ b/kasa/smart/modules/lightpreset.py
@@ -28,6 +28,7 @@ class LightPreset(SmartModule, LightPresetInterface):
 
     _presets: dict[str, LightState]
     _preset_list: list[str]
+    _preset_indexes: dict[str, int]
 
     def __init__(self, device: SmartDevice, module: str) -> None:
         super().__init__(device, module)
@@ -38,10 +39,12 @@ class LightPreset(SmartModule, LightPresetInterface):
         """Update the internal presets."""
         index = 0
         self._presets = {}
+        # Effects are not presets but they do have a place in the device's list
+        self._preset_indexes = {}
 
         state_key = "states" if not self._state_in_sysinfo else self.SYS_INFO_STATE_KEY
         if preset_states := self.data.get(state_key):
-            for preset_state in preset_states:
+            for device_index, preset_state in enumerate(preset_states):
                 if "brightness" not in preset_state:
                     # Some devices can store effects as a preset. These will be ignored
                     # and handled in the effects module
@@ -53,6 +56,7 @@ class LightPreset(SmartModule, LightPresetInterface):
                 color_temp = preset_state.get("color_temp")
                 hue = preset_state.get("hue")
                 saturation = preset_state.get("saturation")
+                self._preset_indexes[f"Light preset {index + 1}"] = device_index
                 self._presets[f"Light preset {index + 1}"] = LightState(
                     brightness=preset_state["brightness"],
                     color_temp=color_temp,
@@ -139,14 +143,15 @@ class LightPreset(SmartModule, LightPresetInterface):
         """Update the preset with preset_name with the new preset_info."""
         if preset_name not in self._presets:
             raise ValueError(f"{preset_name} is not a valid preset: {self.preset_list}")
-        index = list(self._presets.keys()).index(preset_name)
         if self._brightness_only:
+            index = list(self._presets.keys()).index(preset_name)
             bright_list = [state.brightness for state in self._presets.values()]
             bright_list[index] = preset_state.brightness
             return await self.call("set_preset_rules", {"brightness": bright_list})
         else:
             state_params = asdict(preset_state)
             new_info = {k: v for k, v in state_params.items() if v is not None}
+            index = self._preset_indexes[preset_name]
             return await self.call(
                 "edit_preset_rules", {"index": index, "state": new_info}
             )
-- 
2.43.0


From 61146159b6b3213b3473956259c185f19d75ca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:50 +0000
Subject: [PATCH 36/73] fix: refuse to save presets without a brightness

---
 kasa/smart/modules/lightpreset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kasa/smart/modules/lightpreset.py b/kasa/smart/modules/lightpreset.py
index 1651739..aaddcd1 100644
--- a/kasa/smart/modules/lightpreset.py
+++ b/kasa/smart/modules/lightpreset.py
@@ -144,6 +144,8 @@ class LightPreset(SmartModule, LightPresetInterface):
         if preset_name not in self._presets:
             raise ValueError(f"{preset_name} is not a valid preset: {self.preset_list}")
         if self._brightness_only:
+            if preset_state.brightness is None:
+                raise ValueError("Presets of this device need a brightness")
             index = list(self._presets.keys()).index(preset_name)
             bright_list = [state.brightness for state in self._presets.values()]
             bright_list[index] = preset_state.brightness
-- 
2.43.0


From f98670a624e41fdb62aee61a437f05dcc24dc812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:50 +0000
Subject: [PATCH 37/73] fix: save only light values in presets

---
 kasa/iot/modules/lightpreset.py   | 3 +++
 kasa/smart/modules/lightpreset.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/kasa/iot/modules/lightpreset.py b/kasa/iot/modules/lightpreset.py
index 2dd99e1..c92ed8e 100644
--- a/kasa/iot/modules/lightpreset.py
+++ b/kasa/iot/modules/lightpreset.py
@@ -137,6 +137,9 @@ class LightPreset(IotModule, LightPresetInterface):
         # Effects listed by the device are not in _presets but do have an index
         index = self._presets[preset_name].index
         state = asdict(preset_state)
+        # whether the light is on and the transition are not part of a preset
+        del state["light_on"]
+        del state["transition"]
         state = {k: v for k, v in state.items() if v is not None}
         state["index"] = index
 
diff --git a/kasa/smart/modules/lightpreset.py b/kasa/smart/modules/lightpreset.py
index aaddcd1..70ed7b6 100644
--- a/kasa/smart/modules/lightpreset.py
+++ b/kasa/smart/modules/lightpreset.py
@@ -152,6 +152,9 @@ class LightPreset(SmartModule, LightPresetInterface):
             return await self.call("set_preset_rules", {"brightness": bright_list})
         else:
             state_params = asdict(preset_state)
+            # whether the light is on and the transition are not part of a preset
+            del state_params["light_on"]
+            del state_params["transition"]
             new_info = {k: v for k, v in state_params.items() if v is not None}
             index = self._preset_indexes[preset_name]
             return await self.call(
-- 
2.43.0


From 08234d96cbdc7c6862b251a2c0992da8c431a53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:25 +0000
Subject: [PATCH 38/73] fix: report the brightness of effects started elsewhere

---
 kasa/smart/modules/lighteffect.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/lighteffect.py b/kasa/smart/modules/lighteffect.py
index 96135de..eb37879 100644
--- a/kasa/smart/modules/lighteffect.py
+++ b/kasa/smart/modules/lighteffect.py
@@ -120,7 +120,11 @@ class LightEffect(SmartModule, SmartLightEffect):
         If *effect_id* is None, return the data for active effect.
         """
         if effect_id is None:
-            effect_id = self.data["current_rule_id"]
+            # The rules are not queried on every update, the device info is
+            effect_id = (
+                self._device._info.get("dynamic_light_effect_id")
+                or self.data["current_rule_id"]
+            )
 
         return self._effect_state_list[effect_id]
 
-- 
2.43.0


From 442526fc8caa18c56fcae24442f72d6275f59b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:25 +0000
Subject: [PATCH 39/73] fix: accept plain effect names that happen to be base64

---
 kasa/smart/modules/lighteffect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/smart/modules/lighteffect.py b/kasa/smart/modules/lighteffect.py
index eb37879..d42b3d9 100644
--- a/kasa/smart/modules/lighteffect.py
+++ b/kasa/smart/modules/lighteffect.py
@@ -40,7 +40,7 @@ class LightEffect(SmartModule, SmartLightEffect):
                 effect["scene_name"] = self.AVAILABLE_BULB_EFFECTS[effect["id"]]
             else:
                 # Otherwise it might be b64 encoded or raw string
-                with contextlib.suppress(binascii.Error):
+                with contextlib.suppress(binascii.Error, UnicodeDecodeError):
                     effect["scene_name"] = base64.b64decode(
                         effect["scene_name"]
                     ).decode()
-- 
2.43.0


From a0e14c79a0b489f8a550bf19302065a5e8731c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:25 +0000
Subject: [PATCH 40/73] fix: keep the stored name of effects when setting their
 brightness

---
 kasa/smart/modules/lighteffect.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kasa/smart/modules/lighteffect.py b/kasa/smart/modules/lighteffect.py
index d42b3d9..b653823 100644
--- a/kasa/smart/modules/lighteffect.py
+++ b/kasa/smart/modules/lighteffect.py
@@ -160,6 +160,10 @@ class LightEffect(SmartModule, SmartLightEffect):
             for state in new_effect["color_status_list"]
         ]
         new_effect["color_status_list"] = new_color_status_list
+        # Keep the name as stored on the device
+        for rule in self.data["rule_list"]:
+            if rule["id"] == new_effect["id"]:
+                new_effect["scene_name"] = rule["scene_name"]
 
         return await self.call("edit_dynamic_light_effect_rule", new_effect)
 
-- 
2.43.0


From bac6ddcdb353b249b42a3e3d0c2125af64905f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:16 +0000
Subject: [PATCH 41/73] fix: send the values of dimmer button actions and fade
 types

---
 kasa/iot/iotdimmer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kasa/iot/iotdimmer.py b/kasa/iot/iotdimmer.py
index 6b22d64..ee0d4ae 100644
--- a/kasa/iot/iotdimmer.py
+++ b/kasa/iot/iotdimmer.py
@@ -204,9 +204,9 @@ class IotDimmer(IotPlug):
          (nothing, instant, gentle, change preset)
         :param index int: in case of preset change, the preset to select
         """
-        action_type_setter = f"set_{action_type}"
+        action_type_setter = f"set_{ActionType(action_type).value}"
 
-        payload: dict[str, Any] = {"mode": str(action)}
+        payload: dict[str, Any] = {"mode": ButtonAction(action).value}
         if index is not None:
             payload["index"] = index
 
@@ -217,7 +217,7 @@ class IotDimmer(IotPlug):
     @requires_update
     async def set_fade_time(self, fade_type: FadeType, time: int) -> dict:
         """Set time for fade in / fade out."""
-        fade_type_setter = f"set_{fade_type}_time"
+        fade_type_setter = f"set_{FadeType(fade_type).value}_time"
         payload = {"fadeTime": time}
 
         return await self._query_helper(self.DIMMER_SERVICE, fade_type_setter, payload)
-- 
2.43.0


From b3786a90e789d2009997a905228c3336a9dafc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:16 +0000
Subject: [PATCH 42/73] fix: refuse empty alarm sounds

---
 kasa/smartcam/modules/alarm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/smartcam/modules/alarm.py b/kasa/smartcam/modules/alarm.py
index df1891e..87e6e08 100644
--- a/kasa/smartcam/modules/alarm.py
+++ b/kasa/smartcam/modules/alarm.py
@@ -191,7 +191,7 @@ class Alarm(SmartCamModule, AlarmInterface):
         volume: int | None = None,
         sound: str | None = None,
     ) -> dict:
-        if sound and sound not in self.alarm_sounds:
+        if sound is not None and sound not in self.alarm_sounds:
             raise ValueError(
                 f"sound must be one of {', '.join(self.alarm_sounds)}: {sound}"
             )
-- 
2.43.0


From caaa82275c6fbbf4a82bfc2becd15fcf00be40f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:16 +0000
Subject: [PATCH 43/73] fix: report idle thermostats with a low battery as idle

---
 kasa/smart/modules/temperaturecontrol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kasa/smart/modules/temperaturecontrol.py b/kasa/smart/modules/temperaturecontrol.py
index 5b08046..6631476 100644
--- a/kasa/smart/modules/temperaturecontrol.py
+++ b/kasa/smart/modules/temperaturecontrol.py
@@ -92,13 +92,13 @@ class TemperatureControl(SmartModule):
             return ThermostatState.Off
 
         states = self.states
+        # Discard known extra states, and report on unknown extra states
+        states.discard("low_battery")
 
         # If the states is empty, the device is idling
         if not states:
             return ThermostatState.Idle
 
-        # Discard known extra states, and report on unknown extra states
-        states.discard("low_battery")
         if len(states) > 1:
             _LOGGER.warning("Got multiple states: %s", states)
 
-- 
2.43.0


From 0bb73b62eafa604f90ad00fcd4f079bbf7587652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:46 +0000
Subject: [PATCH 44/73] fix: keep the consumables of each vacuum apart

---
 kasa/smart/modules/consumables.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/consumables.py b/kasa/smart/modules/consumables.py
index 10de583..0485ff1 100644
--- a/kasa/smart/modules/consumables.py
+++ b/kasa/smart/modules/consumables.py
@@ -6,10 +6,14 @@ import logging
 from collections.abc import Mapping
 from dataclasses import dataclass
 from datetime import timedelta
+from typing import TYPE_CHECKING
 
 from ...feature import Feature
 from ..smartmodule import SmartModule
 
+if TYPE_CHECKING:
+    from ..smartdevice import SmartDevice
+
 _LOGGER = logging.getLogger(__name__)
 
 
@@ -86,7 +90,9 @@ class Consumables(SmartModule):
     REQUIRED_COMPONENT = "consumables"
     QUERY_GETTER_NAME = "getConsumablesInfo"
 
-    _consumables: dict[str, Consumable] = {}
+    def __init__(self, device: SmartDevice, module: str) -> None:
+        super().__init__(device, module)
+        self._consumables: dict[str, Consumable] = {}
 
     def _initialize_features(self) -> None:
         """Initialize features."""
-- 
2.43.0


From b0b34cf4bbfde3f2e887d19d8752e8ce0d30f383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:46 +0000
Subject: [PATCH 45/73] fix: leave the reported vacuum errors in the device
 state

---
 kasa/smart/modules/clean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/smart/modules/clean.py b/kasa/smart/modules/clean.py
index 376e0d3..d6ba45c 100644
--- a/kasa/smart/modules/clean.py
+++ b/kasa/smart/modules/clean.py
@@ -240,7 +240,7 @@ class Clean(SmartModule):
                 "Multiple error codes, using the first one only: %s", errors
             )
 
-        error = errors.pop(0)
+        error = errors[0]
         try:
             self._error_code = ErrorCode(error)
         except ValueError:
-- 
2.43.0


From 4dad1ae53205b4bb02db5e77e547a9f804d05164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:46 +0000
Subject: [PATCH 46/73] fix: leave the reported clean records in the device
 state

---
 kasa/smart/modules/cleanrecords.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/kasa/smart/modules/cleanrecords.py b/kasa/smart/modules/cleanrecords.py
index fdd0dae..ddfb12c 100644
--- a/kasa/smart/modules/cleanrecords.py
+++ b/kasa/smart/modules/cleanrecords.py
@@ -87,11 +87,15 @@ class Records(DataClassDictMixin):
     @classmethod
     def __pre_deserialize__(cls, d: dict) -> dict:
         if ldr := d.get("lastest_day_record"):
-            d["lastest_day_record"] = {
-                "timestamp": ldr[0],
-                "clean_time": ldr[1],
-                "clean_area": ldr[2],
-                "dust_collection": ldr[3],
+            # Copy to avoid modifying the response data of the device
+            d = {
+                **d,
+                "lastest_day_record": {
+                    "timestamp": ldr[0],
+                    "clean_time": ldr[1],
+                    "clean_area": ldr[2],
+                    "dust_collection": ldr[3],
+                },
             }
         return d
 
-- 
2.43.0


From f573f98123a5e1ab4e309fb0e73598d1f6459abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:46 +0000
Subject: [PATCH 47/73] fix: try both login versions when trying all
 connections

---
 kasa/discover.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index eca0277..02eda1c 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -131,7 +131,11 @@ from kasa.json import dumps as json_dumps
 from kasa.json import loads as json_loads
 from kasa.protocols.iotprotocol import REDACTORS as IOT_REDACTORS
 from kasa.protocols.protocol import mask_mac, redact_data
-from kasa.transports.aestransport import AesEncyptionSession, KeyPair
+from kasa.transports.aestransport import (
+    AesEncyptionSession,
+    AesTransport,
+    KeyPair,
+)
 from kasa.transports.xortransport import XorEncryption
 
 _LOGGER = logging.getLogger(__name__)
@@ -647,10 +651,21 @@ class Discover:
             Device.Family.IotIpCamera,
         }
         candidates: dict[
-            tuple[type[BaseProtocol], type[BaseTransport], type[Device], bool],
+            tuple[
+                type[BaseProtocol], type[BaseTransport], type[Device], bool, int | None
+            ],
             tuple[BaseProtocol, DeviceConfig],
         ] = {
-            (type(protocol), type(protocol._transport), device_class, https): (
+            (
+                type(protocol),
+                type(protocol._transport),
+                device_class,
+                https,
+                # The other transports log in the same way for any version
+                login_version
+                if isinstance(protocol._transport, AesTransport)
+                else None,
+            ): (
                 protocol,
                 config,
             )
@@ -695,11 +710,11 @@ class Discover:
                     ex,
                 )
                 if on_attempt:
-                    ca = tuple.__new__(ConnectAttempt, key)
+                    ca = ConnectAttempt(*key[:4])
                     on_attempt(ca, False)
             else:
                 if on_attempt:
-                    ca = tuple.__new__(ConnectAttempt, key)
+                    ca = ConnectAttempt(*key[:4])
                     on_attempt(ca, True)
                 _LOGGER.debug("Found working protocol %s", prot.__class__.__name__)
                 return dev
-- 
2.43.0


From c7b968ffc23ebff9c52e4a85096162c3ace5a4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:46 +0000
Subject: [PATCH 48/73] fix: list networks of devices that report fewer details

---
 kasa/smart/smartdevice.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index da55786..a6a04fb 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -746,11 +746,12 @@ class SmartDevice(Device):
         def _net_for_scan_info(res: dict) -> WifiNetwork:
             return WifiNetwork(
                 ssid=base64.b64decode(res["ssid"]).decode(),
-                cipher_type=res["cipher_type"],
                 key_type=res["key_type"],
-                channel=res["channel"],
                 signal_level=res["signal_level"],
-                bssid=res["bssid"],
+                # Not all devices report these
+                cipher_type=res.get("cipher_type"),
+                channel=res.get("channel"),
+                bssid=res.get("bssid"),
             )
 
         _LOGGER.debug("Querying networks")
-- 
2.43.0


From 8dfe95b5ca685db85140fb15c74df9bc90ba6e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:46 +0000
Subject: [PATCH 49/73] fix: escape spaces in stream credentials as %20

---
 kasa/smartcam/modules/camera.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kasa/smartcam/modules/camera.py b/kasa/smartcam/modules/camera.py
index bd4b280..e86bc7e 100644
--- a/kasa/smartcam/modules/camera.py
+++ b/kasa/smartcam/modules/camera.py
@@ -6,7 +6,7 @@ import base64
 import logging
 from enum import StrEnum
 from typing import Annotated
-from urllib.parse import quote_plus
+from urllib.parse import quote
 
 from ...credentials import Credentials
 from ...feature import Feature
@@ -116,8 +116,8 @@ class Camera(SmartCamModule):
         if not credentials or not credentials.username or not credentials.password:
             return None
 
-        username = quote_plus(credentials.username)
-        password = quote_plus(credentials.password)
+        username = quote(credentials.username, safe="")
+        password = quote(credentials.password, safe="")
 
         return f"rtsp://{username}:{password}@{self._device.host}:{LOCAL_STREAMING_PORT}/{stream}"
 
-- 
2.43.0


From 9776620be92ca03784538812f6b51f5deb887bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:12 +0000
Subject: [PATCH 50/73] fix: turn on behavior mode follows the preset

---
 kasa/iot/iotbulb.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/kasa/iot/iotbulb.py b/kasa/iot/iotbulb.py
index cb2e858..a28f33f 100644
--- a/kasa/iot/iotbulb.py
+++ b/kasa/iot/iotbulb.py
@@ -69,11 +69,24 @@ class TurnOnBehavior(DataClassDictMixin):
     hue: int | None = None
     saturation: int | None = None
 
+    def __pre_serialize__(self) -> TurnOnBehavior:
+        """Set the mode based on the preset value."""
+        if self.preset is not None:
+            self.mode = BehaviorMode.Preset
+        elif self.mode is BehaviorMode.Preset:
+            self.mode = BehaviorMode.Last
+        return self
+
 
 @dataclass
 class TurnOnBehaviors(DataClassDictMixin):
     """Model to contain turn on behaviors."""
 
+    class Config(BaseConfig):
+        """Serialization config."""
+
+        serialize_by_alias = True
+
     #: The behavior when the bulb is turned on programmatically.
     soft: Annotated[TurnOnBehavior, Alias("soft_on")]
     #: The behavior when the bulb has been off from mains power.
-- 
2.43.0


From 212628f551fcb6eb818a97e19337d49223389be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:12 +0000
Subject: [PATCH 51/73] fix: let light presets modify change temperatures and
 refuse negative indexes

---
 kasa/cli/light.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kasa/cli/light.py b/kasa/cli/light.py
index a778556..800f25f 100644
--- a/kasa/cli/light.py
+++ b/kasa/cli/light.py
@@ -159,7 +159,7 @@ async def presets_modify(dev: Device, index, brightness, hue, saturation, temper
         return
 
     max_index = len(light_preset.preset_states_list) - 1
-    if index > len(light_preset.preset_states_list) - 1:
+    if not 0 <= index <= max_index:
         error(f"Invalid index, must be between 0 and {max_index}")
         return
 
@@ -179,7 +179,7 @@ async def presets_modify(dev: Device, index, brightness, hue, saturation, temper
         preset.hue = hue
     if saturation is not None and preset.saturation is not None:
         preset.saturation = saturation
-    if temperature is not None and preset.temperature is not None:
+    if temperature is not None and preset.color_temp is not None:
         preset.color_temp = temperature
 
     echo(f"Updating preset {preset_name} to: {preset}")
-- 
2.43.0


From 5e01090fb5311faebfc307b6f1e73a432fd060f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:12 +0000
Subject: [PATCH 52/73] fix: make the turn_on_behavior command work

---
 kasa/cli/light.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kasa/cli/light.py b/kasa/cli/light.py
index 800f25f..cce7752 100644
--- a/kasa/cli/light.py
+++ b/kasa/cli/light.py
@@ -9,6 +9,7 @@ from kasa import (
 from kasa.iot import (
     IotBulb,
 )
+from kasa.iot.iotbulb import BehaviorMode
 
 from .common import echo, error, pass_dev_or_child
 
@@ -188,10 +189,10 @@ async def presets_modify(dev: Device, index, brightness, hue, saturation, temper
 
 
 @light.command()
-@pass_dev_or_child
 @click.option("--type", type=click.Choice(["soft", "hard"], case_sensitive=False))
 @click.option("--last", is_flag=True)
 @click.option("--preset", type=int)
+@pass_dev_or_child
 async def turn_on_behavior(dev: Device, type, last, preset):
     """Modify bulb turn-on behavior."""
     if dev.device_type is not Device.Type.Bulb or not isinstance(dev, IotBulb):
@@ -201,11 +202,11 @@ async def turn_on_behavior(dev: Device, type, last, preset):
     echo(f"Current turn on behavior: {settings}")
 
     # Return if we are not setting the value
-    if not type and not last and not preset:
+    if not type and not last and preset is None:
         return settings
 
     # If we are setting the value, the type has to be specified
-    if (last or preset) and type is None:
+    if (last or preset is not None) and type is None:
         echo("To set the behavior, you need to define --type")
         return
 
@@ -213,6 +214,7 @@ async def turn_on_behavior(dev: Device, type, last, preset):
 
     if last:
         echo(f"Going to set {type} to last")
+        behavior.mode = BehaviorMode.Last
         behavior.preset = None
     elif preset is not None:
         echo(f"Going to set {type} to preset {preset}")
-- 
2.43.0


From cce47739ef6534b74784f3c5cebc453ae0cccb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:12 +0000
Subject: [PATCH 53/73] fix: make the schedule commands work

---
 kasa/cli/schedule.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kasa/cli/schedule.py b/kasa/cli/schedule.py
index 7c9c738..dfd6b6c 100644
--- a/kasa/cli/schedule.py
+++ b/kasa/cli/schedule.py
@@ -19,22 +19,22 @@ async def schedule(dev) -> None:
 
 
 @schedule.command(name="list")
-@pass_dev_or_child
 @click.argument("type", default="schedule")
+@pass_dev_or_child
 async def _schedule_list(dev, type):
     """Return the list of schedule actions for the given type."""
     sched = dev.modules[type]
     for rule in sched.rules:
         print(rule)
-    else:
+    if not sched.rules:
         error(f"No rules of type {type}")
 
     return sched.rules
 
 
 @schedule.command(name="delete")
-@pass_dev_or_child
 @click.option("--id", type=str, required=True)
+@pass_dev_or_child
 async def delete_rule(dev, id):
     """Delete rule from device."""
     schedule = dev.modules["schedule"]
-- 
2.43.0


From b8e66a235051934ed9de882675cc819d0de0694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:12 +0000
Subject: [PATCH 54/73] fix: do not ask to confirm timezones that match exactly

---
 kasa/cli/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kasa/cli/time.py b/kasa/cli/time.py
index e2cb4c1..bb42c2f 100644
--- a/kasa/cli/time.py
+++ b/kasa/cli/time.py
@@ -145,6 +145,8 @@ async def _get_timezone(dev, timezone, skip_confirm) -> zoneinfo.ZoneInfo:
         if not matches:
             error(f"Device cannot support {timezone} timezone.")
         first = matches[0]
+        if first == timezone:
+            return tzinfo
         msg = (
             f"An exact match for {timezone} could not be found, "
             + f"timezone will be set to {first}"
-- 
2.43.0


From d2408ee1d6c11c78b01e65f14f8750788caf3e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:20 +0000
Subject: [PATCH 55/73] fix: one failing device does not end the discover
 command

---
 kasa/cli/discover.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kasa/cli/discover.py b/kasa/cli/discover.py
index af367e3..c22ad61 100644
--- a/kasa/cli/discover.py
+++ b/kasa/cli/discover.py
@@ -94,6 +94,12 @@ async def detail(ctx: click.Context) -> DeviceDict:
                 echo("== Authentication failed for device ==")
                 _echo_discovery_info(dev._discovery_info)
                 echo()
+            except Exception as ex:
+                if ctx.find_root().params["host"]:
+                    raise
+                echo("== Updating device failed ==")
+                echo(f"\t{dev.host}: {ex}")
+                echo()
             else:
                 ctx.parent.obj = dev
                 await ctx.parent.invoke(state)
-- 
2.43.0


From fa9cbda1f4b53351f1688b9ae2543f7be999d58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:20 +0000
Subject: [PATCH 56/73] fix: discover config tells the login version

---
 kasa/cli/discover.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kasa/cli/discover.py b/kasa/cli/discover.py
index c22ad61..d75a6da 100644
--- a/kasa/cli/discover.py
+++ b/kasa/cli/discover.py
@@ -286,6 +286,7 @@ async def config(ctx: click.Context) -> DeviceDict:
             f"--device-family {cparams.device_family.value} "
             f"--encrypt-type {cparams.encryption_type.value} "
             f"{'--https' if cparams.https else '--no-https'}"
+            + (f" --login-version {lv}" if (lv := cparams.login_version) else "")
         )
         return {host: dev}
     else:
-- 
2.43.0


From 5b76ca0fba55e9cdbad264f06151e9f3a27bee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:20 +0000
Subject: [PATCH 57/73] fix: end the search for an alias when discovery fails

---
 kasa/cli/discover.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/kasa/cli/discover.py b/kasa/cli/discover.py
index d75a6da..30af91d 100644
--- a/kasa/cli/discover.py
+++ b/kasa/cli/discover.py
@@ -376,17 +376,22 @@ async def find_dev_from_alias(
             found_event.set()
 
     async def do_discover():
-        for _ in range(1, attempts):
-            await Discover.discover(
-                target=target,
-                timeout=timeout,
-                credentials=credentials,
-                on_discovered=on_discovered,
-            )
-            if found_event.is_set():
-                break
-        found_event.set()
+        try:
+            for _ in range(attempts):
+                await Discover.discover(
+                    target=target,
+                    timeout=timeout,
+                    credentials=credentials,
+                    on_discovered=on_discovered,
+                )
+                if found_event.is_set():
+                    break
+        finally:
+            found_event.set()
 
-    asyncio.create_task(do_discover())
+    task = asyncio.create_task(do_discover())
     await found_event.wait()
-    return found_device[0] if found_device else None
+    if found_device:
+        return found_device[0]
+    await task
+    return None
-- 
2.43.0


From a08e5fbe6fb4a2b11364f19e3224fde307b09d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:36 +0000
Subject: [PATCH 58/73] fix: redact children of the same model in dump_devinfo

---
 devtools/dump_devinfo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/devtools/dump_devinfo.py b/devtools/dump_devinfo.py
index bbe1e81..a6b53cb 100644
--- a/devtools/dump_devinfo.py
+++ b/devtools/dump_devinfo.py
@@ -1056,6 +1056,7 @@ async def get_smart_fixtures(
             )
         # same model child device
         else:
+            response = redact_data(response, _wrap_redactors(SMART_REDACTORS))
             cd = final.setdefault("child_devices", {})
             cd[scrubbed_child_id] = response
 
-- 
2.43.0


From da108bfed6c52c510bcb6b2a7838f3c1eb23d9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:34 +0000
Subject: [PATCH 59/73] fix: dump legacy devices that cannot answer all queries
 at once

---
 devtools/dump_devinfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/devtools/dump_devinfo.py b/devtools/dump_devinfo.py
index a6b53cb..f137737 100644
--- a/devtools/dump_devinfo.py
+++ b/devtools/dump_devinfo.py
@@ -447,7 +447,7 @@ async def get_legacy_fixture(
     final: dict = defaultdict(defaultdict)
     for succ, resp in successes:
         final_query[succ.module][succ.method] = {}
-        final[succ.module][succ.method] = resp
+        final[succ.module].update(resp[succ.module])
 
     final = default_to_regular(final)
 
-- 
2.43.0


From a4ec5827477bdad3d2e774911faadbe344e4ff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:34 +0000
Subject: [PATCH 60/73] fix: dump hubs with children that do not respond

---
 devtools/dump_devinfo.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/devtools/dump_devinfo.py b/devtools/dump_devinfo.py
index f137737..731cc98 100644
--- a/devtools/dump_devinfo.py
+++ b/devtools/dump_devinfo.py
@@ -878,26 +878,32 @@ def scrub_child_device_ids(
                 "Cannot find device id in child get device info: %s", child_id
             )
 
+    def get_scrubbed_id(device_id: str) -> str:
+        # Children that did not respond to any query are only in the lists
+        return scrubbed_child_id_map.setdefault(
+            device_id, f"SCRUBBED_CHILD_DEVICE_ID_{len(scrubbed_child_id_map) + 1}"
+        )
+
     # Scrub the device ids in the parent for smart protocol
     if gc := main_response.get("get_child_device_component_list"):
         for child in gc["child_component_list"]:
             device_id = child["device_id"]
-            child["device_id"] = scrubbed_child_id_map[device_id]
+            child["device_id"] = get_scrubbed_id(device_id)
         for child in main_response["get_child_device_list"]["child_device_list"]:
             device_id = child["device_id"]
-            child["device_id"] = scrubbed_child_id_map[device_id]
+            child["device_id"] = get_scrubbed_id(device_id)
 
     # Scrub the device ids in the parent for the smart camera protocol
     if gc := main_response.get("getChildDeviceComponentList"):
         for child in gc["child_component_list"]:
             device_id = child["device_id"]
-            child["device_id"] = scrubbed_child_id_map[device_id]
+            child["device_id"] = get_scrubbed_id(device_id)
         for child in main_response["getChildDeviceList"]["child_device_list"]:
             if device_id := child.get("device_id"):
-                child["device_id"] = scrubbed_child_id_map[device_id]
+                child["device_id"] = get_scrubbed_id(device_id)
                 continue
             elif dev_id := child.get("dev_id"):
-                child["dev_id"] = scrubbed_child_id_map[dev_id]
+                child["dev_id"] = get_scrubbed_id(dev_id)
                 continue
             _LOGGER.error("Could not find a device id for the child device: %s", child)
 
-- 
2.43.0


From d928bbda1c28121e3081d0f7c1a8cfd66758ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:30 +0000
Subject: [PATCH 61/73] fix: tell whether a camera's battery is charging by
 what it reports

---
 kasa/smartcam/modules/battery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/smartcam/modules/battery.py b/kasa/smartcam/modules/battery.py
index d6bd97f..083cfdc 100644
--- a/kasa/smartcam/modules/battery.py
+++ b/kasa/smartcam/modules/battery.py
@@ -110,4 +110,4 @@ class Battery(SmartCamModule):
     @property
     def battery_charging(self) -> bool:
         """Return True if battery is charging."""
-        return self._device.sys_info["battery_voltage"] != "NO"
+        return self._device.sys_info["battery_charging"] != "NO"
-- 
2.43.0


From 0c3eb25a0df18c9dc1530a950c174fda677f1ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:13 +0000
Subject: [PATCH 62/73] fix: show the last alert of a leak sensor on a hub

---
 kasa/smart/modules/waterleaksensor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/waterleaksensor.py b/kasa/smart/modules/waterleaksensor.py
index b6f0101..4192f63 100644
--- a/kasa/smart/modules/waterleaksensor.py
+++ b/kasa/smart/modules/waterleaksensor.py
@@ -84,5 +84,9 @@ class WaterleakSensor(SmartModule):
             return None
 
         ts = self._device.sys_info["trigger_timestamp"]
-        tz = self._device.modules[Module.Time].timezone
+        # Hub children have no time module, the time is that of their hub.
+        device = self._device
+        if device._parent and Module.Time not in device.modules:
+            device = device._parent
+        tz = device.modules[Module.Time].timezone
         return datetime.fromtimestamp(ts, tz=tz)
-- 
2.43.0


From 64f0a90645ff102b7591248604fcb2550fc0aa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:34 +0000
Subject: [PATCH 63/73] fix: let old meters' get_daystat and get_monthstat take
 kwh again

---
 kasa/iot/modules/emeter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kasa/iot/modules/emeter.py b/kasa/iot/modules/emeter.py
index 0720e0a..d4826d3 100644
--- a/kasa/iot/modules/emeter.py
+++ b/kasa/iot/modules/emeter.py
@@ -99,6 +99,10 @@ class Emeter(Usage, EnergyInterface):
         data = self._convert_stat_data(data["month_list"], entry_key="month", kwh=kwh)
         return data
 
+    # The deprecated names are those of Usage, whose methods do not take kwh.
+    get_daystat = get_daily_stats
+    get_monthstat = get_monthly_stats
+
     def _convert_stat_data(
         self,
         data: list[dict[str, int | float]],
-- 
2.43.0


From ff48f9c5d50cde7f28c88320c58fa994e0365931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:34 +0000
Subject: [PATCH 64/73] fix: show only the battery readings a camera reports

---
 kasa/smartcam/modules/battery.py | 51 +++++++++++++++++---------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/kasa/smartcam/modules/battery.py b/kasa/smartcam/modules/battery.py
index 083cfdc..f379a8c 100644
--- a/kasa/smartcam/modules/battery.py
+++ b/kasa/smartcam/modules/battery.py
@@ -44,32 +44,35 @@ class Battery(SmartCamModule):
             )
         )
 
-        self._add_feature(
-            Feature(
-                self._device,
-                "battery_temperature",
-                "Battery temperature",
-                container=self,
-                attribute_getter="battery_temperature",
-                icon="mdi:battery",
-                unit_getter=lambda: "celsius",
-                category=Feature.Category.Debug,
-                type=Feature.Type.Sensor,
+        # Not reported by every battery powered camera
+        if "battery_temperature" in self._device.sys_info:
+            self._add_feature(
+                Feature(
+                    self._device,
+                    "battery_temperature",
+                    "Battery temperature",
+                    container=self,
+                    attribute_getter="battery_temperature",
+                    icon="mdi:battery",
+                    unit_getter=lambda: "celsius",
+                    category=Feature.Category.Debug,
+                    type=Feature.Type.Sensor,
+                )
             )
-        )
-        self._add_feature(
-            Feature(
-                self._device,
-                "battery_voltage",
-                "Battery voltage",
-                container=self,
-                attribute_getter="battery_voltage",
-                icon="mdi:battery",
-                unit_getter=lambda: "V",
-                category=Feature.Category.Debug,
-                type=Feature.Type.Sensor,
+        if "battery_voltage" in self._device.sys_info:
+            self._add_feature(
+                Feature(
+                    self._device,
+                    "battery_voltage",
+                    "Battery voltage",
+                    container=self,
+                    attribute_getter="battery_voltage",
+                    icon="mdi:battery",
+                    unit_getter=lambda: "V",
+                    category=Feature.Category.Debug,
+                    type=Feature.Type.Sensor,
+                )
             )
-        )
         self._add_feature(
             Feature(
                 self._device,
-- 
2.43.0


From b7c9179e2fc24ab7f6bcc89a1a4cabee2887b559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:55 +0000
Subject: [PATCH 65/73] fix: print the login version in the options of discover
 config

---
 kasa/cli/discover.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/cli/discover.py b/kasa/cli/discover.py
index 30af91d..621246c 100644
--- a/kasa/cli/discover.py
+++ b/kasa/cli/discover.py
@@ -286,7 +286,8 @@ async def config(ctx: click.Context) -> DeviceDict:
             f"--device-family {cparams.device_family.value} "
             f"--encrypt-type {cparams.encryption_type.value} "
             f"{'--https' if cparams.https else '--no-https'}"
-            + (f" --login-version {lv}" if (lv := cparams.login_version) else "")
+            # Without the option the cli uses version 2
+            + f" --login-version {cparams.login_version or 1}"
         )
         return {host: dev}
     else:
-- 
2.43.0


From 63c0477def8fd78d20cfbc3562a9eb293d0e2ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:55 +0000
Subject: [PATCH 66/73] fix: refuse values that are not a number in the range
 of a feature

---
 kasa/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/feature.py b/kasa/feature.py
index 0c4c6e2..423fdd6 100644
--- a/kasa/feature.py
+++ b/kasa/feature.py
@@ -248,7 +248,7 @@ class Feature:
         if self.type == Feature.Type.Number:  # noqa: SIM102
             if not isinstance(value, int | float):
                 raise ValueError("value must be a number")
-            if value < self.minimum_value or value > self.maximum_value:
+            if not self.minimum_value <= value <= self.maximum_value:
                 raise ValueError(
                     f"Value {value} out of range "
                     f"[{self.minimum_value}, {self.maximum_value}]"
-- 
2.43.0


From a21e0615a4a73198841bfb700d27f52bad422fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:55 +0000
Subject: [PATCH 67/73] fix: fill the placeholder of the message about an
 unreadable response

---
 kasa/httpclient.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kasa/httpclient.py b/kasa/httpclient.py
index cbc78a3..15b0d86 100644
--- a/kasa/httpclient.py
+++ b/kasa/httpclient.py
@@ -129,7 +129,10 @@ class HttpClient:
                     try:
                         response_data = json_loads(response_data.decode())
                     except Exception:
-                        _LOGGER.debug("Device %s response could not be parsed as json")
+                        _LOGGER.debug(
+                            "Device %s response could not be parsed as json",
+                            self._config.host,
+                        )
 
         except (aiohttp.ServerDisconnectedError, aiohttp.ClientOSError) as ex:
             if not self._wait_between_requests:
-- 
2.43.0


From 1775085035a99f048da3378273dcd463c2b11d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:55 +0000
Subject: [PATCH 68/73] fix: fill the placeholders of the messages about motion
 sensors

---
 kasa/iot/modules/motion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kasa/iot/modules/motion.py b/kasa/iot/modules/motion.py
index a795b44..5f8e7ec 100644
--- a/kasa/iot/modules/motion.py
+++ b/kasa/iot/modules/motion.py
@@ -99,11 +99,13 @@ class Motion(IotModule):
 
         # Require that ADC value is also present.
         if "get_adc_value" not in self.data:
-            _LOGGER.warning("%r initialized, but no get_adc_value in response")
+            _LOGGER.warning(
+                "%r initialized, but no get_adc_value in response", self
+            )
             return
 
         if "enable" not in self.config:
-            _LOGGER.warning("%r initialized, but no enable in response")
+            _LOGGER.warning("%r initialized, but no enable in response", self)
             return
 
         self._add_feature(
-- 
2.43.0


From b5c4fc66851684c228b587686a5b9dd799863671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:55 +0000
Subject: [PATCH 69/73] fix: do not update a device twice at the same time

---
 kasa/smart/smartdevice.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index a6a04fb..0582ec8 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import asyncio
 import base64
 import logging
 import time
@@ -76,6 +77,7 @@ class SmartDevice(Device):
         self._on_since: datetime | None = None
         self._info: dict[str, Any] = {}
         self._logged_missing_child_ids: set[str] = set()
+        self._update_lock = asyncio.Lock()
 
     async def _initialize_children(self) -> None:
         """Initialize children for power strips."""
@@ -265,6 +267,12 @@ class SmartDevice(Device):
 
     async def update(self, update_children: bool = True) -> None:
         """Update the device."""
+        # Updates at the same time would add and remove the same children
+        async with self._update_lock:
+            await self._update_device(update_children)
+
+    async def _update_device(self, update_children: bool) -> None:
+        """Update the device, one update at a time."""
         if self.credentials is None and self.credentials_hash is None:
             raise AuthenticationError("Tapo plug requires authentication.")
 
-- 
2.43.0


From ef83221571f7e981d2156a9708b7a6bd63379adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:55 +0000
Subject: [PATCH 70/73] fix: read the night mode settings of the led

---
 kasa/smart/modules/led.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/kasa/smart/modules/led.py b/kasa/smart/modules/led.py
index 1733c3c..8710f0d 100644
--- a/kasa/smart/modules/led.py
+++ b/kasa/smart/modules/led.py
@@ -43,10 +43,11 @@ class Led(SmartModule, LedInterface):
     @property
     def night_mode_settings(self) -> dict:
         """Night mode settings."""
+        night_mode = self.data["night_mode"]
         return {
-            "start": self.data["start_time"],
-            "end": self.data["end_time"],
-            "type": self.data["night_mode_type"],
-            "sunrise_offset": self.data["sunrise_offset"],
-            "sunset_offset": self.data["sunset_offset"],
+            "start": night_mode["start_time"],
+            "end": night_mode["end_time"],
+            "type": night_mode["night_mode_type"],
+            "sunrise_offset": night_mode["sunrise_offset"],
+            "sunset_offset": night_mode["sunset_offset"],
         }
-- 
2.43.0


From c6daa3f4144581719b46c636e5ef7290dfcb02ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:55 +0000
Subject: [PATCH 71/73] fix: show the time of the strip for its sockets

---
 kasa/iot/iotstrip.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index aee3c49..35f9690 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 import logging
 from collections import defaultdict
-from datetime import UTC, datetime, timedelta
+from datetime import UTC, datetime, timedelta, tzinfo
 from typing import TYPE_CHECKING, Any
 
 from ..device_type import DeviceType
@@ -426,6 +426,18 @@ class IotStripPlug(IotPlug):
         info = self._get_child_info()
         return bool(info["state"])
 
+    @property
+    @requires_update
+    def time(self) -> datetime:
+        """Return the current time of the strip."""
+        return self._parent.time
+
+    @property
+    @requires_update
+    def timezone(self) -> tzinfo:
+        """Return the timezone of the strip."""
+        return self._parent.timezone
+
     @property  # type: ignore
     @requires_update
     def led(self) -> bool:
-- 
2.43.0


From 3912d8afbcb79840e4abe6053b30105a9d54e6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:03 +0000
Subject: [PATCH 72/73] fix: return the time when the time group is called

---
 kasa/cli/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/cli/time.py b/kasa/cli/time.py
index bb42c2f..baebe46 100644
--- a/kasa/cli/time.py
+++ b/kasa/cli/time.py
@@ -26,7 +26,7 @@ from .common import (
 async def time(ctx: click.Context) -> None:
     """Get and set time."""
     if ctx.invoked_subcommand is None:
-        await ctx.invoke(time_get)
+        return await ctx.invoke(time_get)
 
 
 @time.command(name="get")
-- 
2.43.0


From 0ff31ec4fbdb68a4e7c499094330df26a017790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:03 +0000
Subject: [PATCH 73/73] fix: set the wall clock time of a device in another
 timezone

---
 kasa/cli/time.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kasa/cli/time.py b/kasa/cli/time.py
index baebe46..d8057be 100644
--- a/kasa/cli/time.py
+++ b/kasa/cli/time.py
@@ -72,6 +72,9 @@ async def time_sync(dev: Device, timezone: str | None, skip_confirm: bool):
                 + "syncing will produce unexpected results."
             )
         now = now.replace(tzinfo=tzinfo)
+    else:
+        # Times without a timezone are times in the timezone of the device
+        now = datetime.now(time.timezone).replace(tzinfo=None)
 
     echo(f"Old time: {time.time} ({time.timezone})")
 
-- 
2.43.0

