prop(
    "C01",
    "Legacy cipher and framing are an exact inverse pair",
    "Encrypting any request text for a legacy device yields a four-byte big-endian length of the encoded text followed by the autokey XOR cipher (start value 171) of exactly those bytes, and decrypting any such ciphertext returns the original text. "
    "Over a connection exactly one such frame is written per request, exactly the announced number of reply bytes is consumed, and a reply cut short at any byte is an error that closes the connection, never a result.",
    ["inputs", "fault_sequences"],
    "every text up to the length bound (every byte symbolic), every cut point of a reply",
    "Tests round-trip a few fixed or random strings; the inverse and length laws are over all byte strings.",
    ["kasa/transports/xortransport.py"],
    [("autokey cipher and length prefix", "XorEncryption.encrypt / decrypt"), ("frame reader", "XorTransport._execute_send")],
    ["bytes handed to the stream writer", "return value of send"],
    note="Assumes the optional kasa_crypt C extension is absent (it is not Python source).",
)
prop(
    "C02",
    "Legacy TCP connection: reuse, cleanup and error classification",
    "A legacy transport keeps at most one connection, reuses it while exchanges succeed, and after any failure or cancellation, at whatever step, closes it so that the next request starts on a fresh connection and can never read an earlier request's reply. "
    "A stalled peer raises the library's timeout error within the configured timeout, refused/unreachable/down hosts a non-retryable error, every other failure a retryable error, and cancellation propagates unchanged; close() leaves no connection open and the transport usable.",
    ["fault_sequences", "histories", "schedules"],
    "every sequence of requests with a fault (or none) at each step of each exchange, any errno",
    "Tests inject one fault at a time with mocks; the guarantee is over sequences of faults at every step and all errno values.",
    ["kasa/transports/xortransport.py"],
    [("connect/send error handling", "XorTransport.send"), ("close paths", "XorTransport.close / close_without_wait / reset")],
    ["connections opened/closed", "exceptions raised by send"],
    [("reader/writer", "the open connection", "XorTransport")],
)
prop(
    "C03",
    "Query retry contract",
    "A query with retry budget n performs at most n+1 attempts, retries only after connection errors, retryable device errors and timeouts, and stops at the first success, authentication error or other error; the caller gets that success, or the exception of the last attempt. "
    "The transport is reset after every failed attempt except a plain lost connection, and a retry after a timeout waits first.",
    ["fault_sequences"],
    "every sequence of attempt outcomes for every budget up to the bound, for all three protocol families",
    "Tests exercise one repeated error type at a time; mixed sequences of outcomes are exponentially many.",
    ["kasa/protocols/iotprotocol.py", "kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py"],
    [("retry loops", "IotProtocol._query, SmartProtocol._query")],
    ["number of sends and resets on the transport", "outcome of query()"],
)
prop(
    "C04",
    "One exchange at a time per connection; replies reach their caller",
    "However many callers query one device concurrently (directly or through its child devices), at most one request/response exchange is outstanding on its connection, the exchanges of one query are not interleaved with another's, and each caller receives the reply to its own request. "
    "Cancelling or failing one caller, waiting or in flight, never blocks or corrupts the others.",
    ["schedules", "fault_sequences"],
    "every order of completions, failures and cancellations of M concurrent callers",
    "Tests run queries mostly sequentially; interleavings with cancellation are not sampled.",
    ["kasa/protocols/iotprotocol.py", "kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py"],
    [("query lock", "IotProtocol.query / SmartProtocol.query"), ("child wrappers delegate to the parent", "_ChildProtocolWrapper, _ChildCameraProtocolWrapper")],
    ["overlap of transport.send calls", "result of each query"],
    [("_query_lock", "serialises queries", "IotProtocol, SmartProtocol")],
)
prop(
    "C05",
    "Batched queries answer every requested method exactly once",
    "A query for several methods returns an entry for exactly the methods asked, each holding that method's own result (or its error code), however the device treats members of a batch: answering, failing, stopping at the first error, dropping or not naming one. "
    "Batches are never empty nor larger than the configured size, keep each method's parameters, never contain methods that must be sent alone, never re-send an answered method, and after a batch the device cannot decode only single requests are used.",
    ["inputs", "fault_sequences", "configurations"],
    "every assignment of device behaviours to the methods, every batch size, with and without unbatchable methods",
    "Tests cover a handful of batch shapes; combinations of batch size, order and per-member behaviour are not.",
    ["kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py"],
    [("batch splitting and requery", "SmartProtocol._execute_multiple_query")],
    ["requests on the transport", "result of query()"],
    [("_multi_request_batch_size", "current batch size", "SmartProtocol")],
)
prop(
    "C06",
    "Paged lists are completed without loss or duplication",
    "When a result announces a total and a start index, the library fetches further pages until the total is reached or the device returns an empty page, and the caller sees all entries in order, none lost, duplicated or asked twice. "
    "This holds for single, batched, individually re-queried and unbatched requests of both protocol families, always terminates, and leaves results that are not paged lists untouched.",
    ["inputs", "fault_sequences"],
    "every list length, announced total and sequence of page sizes within the bound",
    "Tests use one or two fixed page sizes; short, empty and over-announced pages in every position are not covered.",
    ["kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py"],
    [("page loop", "SmartProtocol._handle_response_lists"), ("next-page request", "_get_list_request")],
    ["start indexes requested", "list returned by query()"],
)
prop(
    "C07",
    "Device error codes are never mistaken and never swallowed",
    "For every integer error code in a response: zero is success, session/transport codes are retried within the budget, credential codes raise an authentication error at once, every other code raises a device error at once carrying that code, and codes the library does not know are reported as the internal unknown error. "
    "Inside a batch (or a batch for a child) a member's code is returned for that member only; a single call to a child raises it; an undecodable whole batch falls back to single requests.",
    ["inputs"],
    "every integer error code, at every position it can occur in",
    "Tests check selected codes; the classification is a total function on integers.",
    ["kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py", "kasa/exceptions.py"],
    [("code table", "SmartErrorCode, SMART_RETRYABLE_ERRORS, SMART_AUTHENTICATION_ERRORS"), ("classification", "_handle_response_error_code")],
    ["exception type and error_code of query()", "number of sends"],
)
prop(
    "C09",
    "KLAP: nothing is sent to a peer that did not prove the credentials",
    "A KLAP handshake succeeds if and only if the device's 32-byte proof equals the one derived from the caller's credentials (or stored hash), one of the vendor default credentials, or blank ones, and the status is 200; the second message then proves the same credentials. "
    "Otherwise the caller gets an authentication error (wrong proof) or a plain error (bad status or size), and neither the second message nor any command leaves the library.",
    ["inputs"],
    "all 2^256 proofs, all sizes up to 64 bytes, all HTTP statuses, both protocol versions, three ways to give credentials",
    "Tests compare a few matching and non-matching hashes; the guarantee is over every proof.",
    ["kasa/transports/klaptransport.py"],
    [("handshake verification", "KlapTransport.perform_handshake1/2")],
    ["HTTP requests sent", "outcome of send"],
    note="Hash functions are executed, not encoded; seeds and credentials are fixed samples.",
)
prop(
    "C10",
    "KLAP session lifecycle",
    "Within a KLAP session every command carries the session cookie, is signed and encrypted with that session's keys, and uses the next sequence number; a session is kept until its announced lifetime (less the safety margin) ends, it is reset, or the device reports a security error, after which the next command first makes a new handshake with a fresh seed. "
    "Replies are returned only when status is 200 and they decrypt to a document; a security status is a retryable error, every other status, and every reply that does not decrypt or parse, is a library error.",
    ["histories", "fault_sequences", "inputs"],
    "every sequence of commands with any elapsed times, lifetimes, statuses and reply corruptions within the bound",
    "Tests step through one expiry and one error; combinations over time are not sampled.",
    ["kasa/transports/klaptransport.py"],
    [("expiry", "KlapTransport._handshake_session_expired"), ("sequence and cipher", "KlapEncryptionSession"), ("error handling", "KlapTransport.send")],
    ["HTTP requests, their cookies and sequence numbers", "outcome of send"],
    [("_handshake_done/_session_expire_at/_seq", "session state", "KlapTransport, KlapEncryptionSession")],
)
prop(
    "C14",
    "HTTP exchange: outcomes, pacing and session ownership",
    "Each HTTP post sends exactly one request with the configured timeout and returns the status and body (JSON-decoded when JSON was sent), or raises one library exception: connection error for a lost connection, timeout error for every kind of timeout, a plain error for anything else, whether it happens while sending or reading. "
    "Once a lost connection was seen, later requests are kept at least a quarter second apart; cookies of earlier exchanges are not replayed, a caller-supplied session is never closed, and the library's own is closed by close().",
    ["fault_sequences", "histories", "inputs"],
    "every sequence of outcomes (11 failures while sending or reading, any status) and elapsed times within the bound",
    "Tests inject single errors; the spacing law and classification must hold over sequences and all elapsed times.",
    ["kasa/httpclient.py"],
    [("error mapping and delay", "HttpClient.post"), ("session ownership", "HttpClient.client / close")],
    ["requests on the aiohttp session, their times", "outcome of post"],
    [("_wait_between_requests/_last_request_time", "pacing state", "HttpClient")],
)
prop(
    "C08",
    "Child requests reach the right child and come back under their methods",
    "A query through a child's protocol is forwarded by the parent to exactly that child, each method once with its own parameters, and returns an entry for every method asked holding that child's own result; queries for other children and the parent, in any order or concurrently, are never mixed up. "
    "A request the parent refuses to forward is reported with the parent's error code (as the method's entry in a camera hub batch, otherwise raised), a failing member never hides the others, the caller's retry budget applies, and closing a child never closes the shared connection.",
    ["inputs", "schedules", "fault_sequences"],
    "every child, parameter, result and error code value; one to several methods; both envelope formats",
    "Tests use one child and fixed values; routing must hold for every combination of child, method, parameter and failing position.",
    ["kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py"],
    [("control_child envelope", "_ChildProtocolWrapper._query"), ("controlChild envelope", "_ChildCameraProtocolWrapper._query")],
    ["requests on the parent's transport", "result of the child's query()"],
)
prop(
    "C11",
    "AES transport: sessions are established, kept and renewed correctly",
    "A command leaves the AES transport only inside a session made by a handshake and an accepted login, encrypted under that session's key and carrying its cookie and token; the caller's credentials are tried first and the vendor default account only after the device refused them with a login error, over a new handshake. "
    "A session is kept until its announced lifetime (less the safety margin) ends, it is reset, or a credential error is reported, and then renewed before the next command. "
    "Every refused status, every error code and every malformed or undecodable answer, at each step, is a library exception of the class its code calls for, never a result.",
    ["inputs", "histories", "fault_sequences"],
    "every status and error code at every step of both logins; every history of commands, times and resets within the bound",
    "Tests follow a few scripted logins; combinations of codes, steps, elapsed times and fallbacks are not sampled.",
    ["kasa/transports/aestransport.py"],
    [("handshake and login", "AesTransport.perform_handshake / perform_login"), ("expiry", "AesTransport._handshake_session_expired"), ("answers", "AesTransport.send_secure_passthrough")],
    ["HTTP requests seen by the device", "outcome of send"],
    [("_state/_token_url/_session_expire_at", "session state", "AesTransport")],
    note="RSA and AES are executed with fixed keys, not encoded.",
)
prop(
    "C12",
    "Camera transport: mutual proof, fallbacks and message integrity",
    "A secure camera session exists only if the device's proof is the one derived from the caller's (or default) password, and the library then proves the same hash; the plain login is used only when the device offers no secure one; anything else is an authentication error (or a device-blocked error when the device says so) and no command is sent. "
    "Within a session each command is sent once, encrypted, with the next sequence number and a matching tag, to that session's address; a lost session (status 500) is retryable, codes are classified as everywhere, unreadable answers are errors, and after a reset or refusal a new handshake with a fresh nonce decides again how to talk.",
    ["inputs", "histories", "fault_sequences"],
    "every 96-character proof, every code pair and shape of the first answer, every status and code after it, every history within the bound",
    "Tests script a handful of device personalities; the guarantee is over every proof, code and sequence of sessions.",
    ["kasa/transports/sslaestransport.py"],
    [("proof comparison", "SslAesTransport.perform_handshake1 / perform_handshake2"), ("tag and sequence", "SslAesTransport.send_secure_passthrough"), ("plain login", "try_perform_less_secure_login")],
    ["HTTPS requests seen by the device", "outcome of send"],
    [("_send_secure/_seq/_state", "session state", "SslAesTransport")],
    note="SHA, MD5 and AES are executed, not encoded.",
)
prop(
    "C13",
    "Vacuum and kasa camera HTTPS transports",
    "The clear-text HTTPS transport sends a command only with the token of an accepted login, trying the caller's credentials first and the vendor default only after a login error, keeps a session for its lifetime, and turns every status, known or unknown error code, or missing code into a library exception of the right class. "
    "The linkie transport sends one form-encoded, XOR-encrypted request per command to the camera endpoint with the vendor account, and returns only a decrypted answer with status 200, everything else being retryable.",
    ["inputs", "histories"],
    "every status and error code at every step; every history of commands, times and resets within the bound",
    "Tests cover selected known codes; unknown codes and combinations over time are not sampled.",
    ["kasa/transports/ssltransport.py", "kasa/transports/linkietransport.py"],
    [("login and fallback", "SslTransport.perform_login"), ("code handling", "SslTransport._handle_response_error_code"), ("linkie exchange", "LinkieTransportV2._execute_send")],
    ["HTTPS requests seen by the device", "outcome of send"],
    [("_state/_session_expire_at", "session state", "SslTransport")],
    note="MD5 is executed, not encoded.",
)
prop(
    "C15",
    "Identifying data and credentials never reach the debug log",
    "What the library logs about a device's answers does not depend on the value of any sensitive field: every key of the redaction tables, at any depth, is replaced by a constant, by its allowed prefix, or (MAC) by its vendor half, while every other field of the document is unchanged and the caller's document is not modified. "
    "This holds for single and batched queries of the three protocol families, and no password, or hash of one, is written to the log by any login.",
    ["inputs"],
    "every pair of values of each sensitive field (non-interference), at every nesting shape within the bound",
    "Tests redact one recorded answer per protocol; leaks depend on the key, its depth, its type and the request shape.",
    ["kasa/protocols/protocol.py", "kasa/protocols/smartprotocol.py", "kasa/protocols/iotprotocol.py", "kasa/discover.py"],
    [("redaction walk", "redact_data"), ("MAC masking", "mask_mac"), ("tables", "REDACTORS / NEW_DISCOVERY_REDACTORS / DECRYPTED_REDACTORS")],
    ["records of the kasa loggers", "the redacted document"],
)
prop(
    "C16",
    "Device configurations survive storage; excluded secrets do not",
    "DeviceConfig.to_dict/from_dict (and JSON) is lossless for every configuration, and the live HTTP session is never part of it. "
    "to_dict_control_credentials leaves out exactly the credentials and hashes it is asked to leave out, keeps everything else and does not change the configuration. "
    "A transport rebuilt from its own credentials hash authenticates with the same secret and offers the same hash, and given credentials take precedence over a hash.",
    ["inputs"],
    "every connection type, every combination of optional fields, every text of the stated lengths",
    "Tests round-trip a few configurations; losing one optional field under one combination goes unseen.",
    ["kasa/deviceconfig.py", "kasa/transports/klaptransport.py", "kasa/transports/aestransport.py", "kasa/transports/sslaestransport.py", "kasa/transports/ssltransport.py"],
    [("serialization", "DeviceConfig.to_dict / from_dict"), ("credential control", "DeviceConfig.to_dict_control_credentials"), ("hash", "credentials_hash of each transport")],
    ["the serialized dict", "the rebuilt configuration and transport"],
)
prop(
    "C17",
    "The right protocol and class for a device; connect closes what it opened",
    "Every supported combination of device family, encryption type and HTTPS gets exactly its protocol, transport, port and device class, every unsupported one gets none, and a legacy device's class follows its system information for every type text, name and shape, unrecognisable ones being library errors. "
    "connect() returns an updated device owning an open connection, or raises the failure (including cancellation) after closing the connection, whichever request fails.",
    ["inputs", "fault_sequences"],
    "every connection type, every system-information text and shape, every request at which connecting can fail",
    "Tests cover the recorded devices and failures of a single request.",
    ["kasa/device_factory.py", "kasa/iot/iotdevice.py"],
    [("protocol table", "get_protocol"), ("family table", "get_device_class_from_family"), ("legacy devices", "get_device_class_from_sys_info / IotDevice._get_device_type_from_sys_info"), ("connection ownership", "connect / _connect")],
    ["class and configuration of the returned objects", "close calls", "exception of connect()"],
)
prop(
    "C18",
    "Discovery turns whatever arrives into one truthful outcome per host",
    "Whatever datagrams arrive, from any host and port and in any order, none raises into the event loop, datagrams from unrelated ports are ignored, and each host that answers ends as exactly one of device, unsupported device or invalid answer, decided by its first answer, reported once and unaffected by other hosts. "
    "A discovered device has a protocol and the announced family, encryption, scheme and login version. "
    "discover_single returns the target's device or raises its error or a timeout, discover returns exactly the devices that answered in time, asking stops when the target has answered, and a cancelled discovery closes what it opened.",
    ["inputs", "schedules", "histories"],
    "every sequence of datagrams within the bound, every mix of field types in an answer",
    "Tests send recorded answers one at a time; hostile or odd answers, their order and unrelated senders are not covered.",
    ["kasa/discover.py", "kasa/device_factory.py"],
    [("datagram handling", "_DiscoverProtocol.datagram_received"), ("answers", "Discover._get_device_instance / _get_device_instance_legacy"), ("entry points", "Discover.discover / discover_single")],
    ["outcome dictionaries", "callbacks", "results and exceptions of discover and discover_single", "datagrams sent"],
)
prop(
    "C19",
    "Features validate what they set, and what was set is what is read back",
    "A Feature refuses, before anything is sent, every value of the wrong type, outside its advertised range or not among its choices, read-only features refuse all, and every other value reaches the setter exactly as given. "
    "For every settable feature of a device, each accepted value is, after the next update, the value the feature reports, and no refused one reaches the device.",
    ["inputs"],
    "every value of every settable feature within the bound, whatever the device stored before",
    "Tests set one or two values per feature on a fake whose setters mostly echo.",
    ["kasa/feature.py", "kasa/smart/modules/", "kasa/smartcam/modules/", "kasa/iot/modules/"],
    [("validation", "Feature.set_value"), ("reading", "Feature.value / range / choices"), ("setters", "the set_* method behind each feature")],
    ["what is sent to the device", "Feature.value after the next update", "exceptions of set_value"],
)
prop(
    "C20",
    "Lights: commands are validated, and the light then is what was asked for",
    "Whatever state a light is in, a brightness, colour or colour temperature outside its range, or one the light does not support, is refused before anything is sent. "
    "An accepted brightness, hsv, colour temperature, state or power command leaves the light, after the next update, with exactly the requested settings and every other setting as it was; brightness 0 turns it off, and a transition is passed on to lights that support it. "
    "Only settings the device knows are sent.",
    ["inputs"],
    "every prior state, every integer argument and every combination of given and omitted arguments",
    "Tests try a handful of values from the recorded state and look at the call made, not at the resulting light.",
    ["kasa/interfaces/light.py", "kasa/smart/modules/light.py", "kasa/smart/modules/brightness.py", "kasa/smart/modules/color.py", "kasa/smart/modules/colortemperature.py", "kasa/iot/modules/light.py", "kasa/iot/iotbulb.py", "kasa/iot/iotdimmer.py"],
    [("SMART lights", "Light.set_* / Brightness / Color / ColorTemperature"), ("legacy bulbs", "IotBulb._set_hsv / _set_color_temp / _set_brightness / _set_light_state"), ("legacy dimmers", "IotDimmer._set_brightness / set_dimmer_transition")],
    ["requests at the transport", "the light's state after the next update", "exceptions"],
)
prop(
    "C21",
    "SMART modules are queried when due, stay current and fail alone",
    "Each update asks for exactly the data of the modules that are due: all of them first, later those never read, changed by a setter, or whose interval has passed (thirty seconds per consecutive failure for a failing module). "
    "A query that fails, alone or because the combined request failed, makes only the data of its own module raise a library error, and after ten failures in a row disables it; every other module, of the device or of its children, keeps the data of its own last successful query. "
    "Only missing device info or components fail an update, with a library error, and a later update recovers.",
    ["histories", "fault_sequences"],
    "every sequence of updates within the bound: all times between them, every query failing at any of them, the combined request failing at any of them",
    "Tests run one or two updates with fixed times and one failing module at a time.",
    ["kasa/smart/smartdevice.py", "kasa/smart/smartmodule.py", "kasa/smart/smartchilddevice.py", "kasa/smartcam/smartcammodule.py"],
    [("scheduling", "SmartModule._should_update / update_interval / allow_update_after"), ("isolation", "SmartDevice._modular_update / _handle_modular_update_error / _handle_module_post_update"), ("children", "SmartChildDevice._update")],
    ["methods that reach the device", "Module.data and Module.disabled after each update"],
)
prop(
    "C22",
    "The children of a hub or strip are the devices it lists, with their own data",
    "After every update the children are exactly the supported devices the parent lists, each once, the same object as long as it stays, showing its own entry of the list and ready to use; a list that cannot be read, or a child that does not answer while it is created, changes and breaks nothing. "
    "A hub asked not to update its children sends them nothing unless they changed. "
    "Pairing scans for the given time, adds what it found and returns exactly the devices the hub then has; unpairing removes exactly the given device.",
    ["histories", "fault_sequences"],
    "every sequence of child lists within the bound, in any order, with odd entries and failing lists; every outcome of pairing",
    "Tests add and remove one child of a recorded hub, without failures.",
    ["kasa/smart/smartdevice.py", "kasa/smartcam/smartcamdevice.py", "kasa/smart/smartchilddevice.py", "kasa/smart/modules/childsetup.py", "kasa/smartcam/modules/childsetup.py"],
    [("lifecycle", "SmartDevice._create_delete_children / _update_children_info"), ("creation", "_try_create_child / _initialize_smart_child"), ("pairing", "ChildSetup.pair / unpair")],
    ["Device.children", "child data", "requests to children"],
)
prop(
    "C23",
    "Legacy devices answer each update in portions, and everyone gets its own data",
    "An update of a legacy device asks for the system information first and once, and for the data of all its modules in requests whose expected answers fit what the device can answer. "
    "Afterwards every module, and every socket of a strip, has the answer to its own request of this update; a module the device reports as unsupported is no longer offered nor asked for and disturbs no other. "
    "A request that fails makes the update raise a library error, and a later update recovers.",
    ["inputs", "histories", "fault_sequences"],
    "every response size limit, every subset of unsupported modules and every failing request",
    "Tests use the recorded answers with one fixed limit; nobody compares what each socket got.",
    ["kasa/iot/iotdevice.py", "kasa/iot/iotstrip.py", "kasa/iot/iotmodule.py"],
    [("portions", "IotDevice._modular_update / estimated_query_response_size"), ("unsupported modules", "IotDevice.modules / IotModule.is_supported"), ("sockets", "IotStripPlug._update")],
    ["requests at the transport", "Module.data, Device.modules and exceptions after each update"],
)
prop(
    "C24",
    "Legacy strips: a socket's commands reach that socket alone, the strip is the sum",
    "Every request made through a socket of a legacy power strip is addressed to that socket alone, and changes it alone. "
    "A power command to the strip is sent to exactly the sockets not yet in that state and leaves every socket in it; the strip is on when any socket is, and sockets show the strip's current data. "
    "Power, current, totals and statistics of the strip are the sums over its sockets, its voltage is their average.",
    ["inputs", "histories", "fault_sequences"],
    "every state of every socket, every socket and command, every reading, every failing request",
    "Tests toggle the recorded strip and compare types, not which sockets were addressed or what the sums are.",
    ["kasa/iot/iotstrip.py", "kasa/iot/iotdevice.py", "kasa/iot/modules/emeter.py", "kasa/iot/modules/usage.py"],
    [("addressing", "IotStripPlug._query_helper / _create_request"), ("strip commands", "IotStrip.turn_on / turn_off / is_on"), ("sums", "StripEmeter / merge_sums")],
    ["child ids of the requests at the transport", "socket states after the next update", "readings of strip and sockets"],
)
prop(
    "C25",
    "Energy readings are the right numbers in the right units, or absent",
    "Whatever subset of readings an energy meter reports, in whichever of its two unit forms, the energy module and its features give power in W, voltage in V, current in A and energy in kWh, and nothing for a reading that was not reported; voltage, current and totals are offered exactly when the device reports them. "
    "Today's and this month's consumption and usage are the current entry of the reported list; statistics give every reported entry, in the unit asked for. "
    "A device whose meter is missing works without it.",
    ["inputs"],
    "every reading, every combination of present and missing readings and unit forms, every order and content of the statistics lists",
    "Tests check the recorded readings of each device, in the one form that device uses.",
    ["kasa/emeterstatus.py", "kasa/interfaces/energy.py", "kasa/iot/modules/emeter.py", "kasa/iot/modules/usage.py", "kasa/smart/modules/energy.py"],
    [("units", "EmeterStatus.__getitem__ / Emeter._convert_stat_data"), ("legacy meters", "Emeter / Usage"), ("SMART meters", "smart Energy._post_update_hook / status")],
    ["readings of module, status and features", "requests at the transport"],
)
prop(
    "C26",
    "Device clocks, time zones and on-since times are exactly the device's",
    "The time of a device is the instant its clock shows, in the zone it reports (UTC, or the reported offset, for a zone that is unknown or missing). "
    "A time that is set, naive or aware, is the time the device then has, in the zone that was meant; a zone it cannot have is refused. "
    "While a device is on, its on-since time is within five seconds of its clock minus its on time, across zone and daylight saving changes, and does not change while that holds; when it is off there is none.",
    ["inputs", "histories"],
    "every clock, on time and zone within the bounds, at each of several updates; every second of four years in every zone",
    "Tests read the recorded clock once and set one time.",
    ["kasa/smart/smartdevice.py", "kasa/smart/modules/time.py", "kasa/smartcam/modules/time.py", "kasa/iot/iotdevice.py", "kasa/iot/iotstrip.py", "kasa/iot/modules/time.py", "kasa/iot/iottimezone.py", "kasa/cachedzoneinfo.py"],
    [("on since", "SmartDevice.on_since / IotDevice.on_since / IotStripPlug.on_since"), ("clock", "Time.time / Time.set_time"), ("zones", "get_timezone / get_timezone_index / Time._post_update_hook")],
    ["time, timezone and on_since after each update", "the clock of the simulated device"],
)
prop(
    "C27",
    "Light presets stand for exactly the values the device lists",
    "Every light preset a light lists has a name and its values, whatever effects are listed in between; setting it gives the light those values, and `preset` is the first preset the light has, or 'Not set'. "
    "Saving a preset changes that entry of the device's list to the light values given and leaves every other preset and effect as it was. "
    "Unknown names, and presets without a brightness on lights that only dim, are refused with nothing sent.",
    ["inputs"],
    "every value of every preset, every arrangement of presets and effects, every prior state of the light",
    "Tests save the first preset of the recorded lists with one value.",
    ["kasa/interfaces/lightpreset.py", "kasa/smart/modules/lightpreset.py", "kasa/iot/modules/lightpreset.py", "kasa/smart/modules/light.py", "kasa/iot/modules/light.py"],
    [("names and values", "LightPreset._post_update_hook"), ("naming", "LightPreset.preset"), ("saving", "LightPreset.save_preset"), ("setting", "LightPreset.set_preset")],
    ["the device's list after a save", "light values and preset after the next update", "requests at the transport"],
)
prop(
    "C28",
    "Light effects: the one chosen runs, as chosen, and is shown",
    "Every effect of a light is listed under its name, and the one that runs is shown, whoever started it, with its brightness as the light's brightness. "
    "Setting an effect runs that effect with its own settings except for the brightness and transition asked for, 'Off' ends it, a name not listed is refused with nothing sent. "
    "Setting the brightness changes only the brightness of the running effect, and neither other effects, names and colours on the device nor the built-in tables ever change.",
    ["inputs", "histories"],
    "every stored name form, brightness of every colour, running effect, built-in effect, brightness and transition; every sequence of two changes by others",
    "Tests start and stop the recorded effects from one state.",
    ["kasa/smart/modules/lighteffect.py", "kasa/smart/modules/lightstripeffect.py", "kasa/smart/modules/brightness.py", "kasa/smart/effects.py", "kasa/iot/modules/lighteffect.py", "kasa/iot/effects.py", "kasa/iot/iotbulb.py"],
    [("names", "LightEffect._post_update_hook"), ("brightness", "LightEffect.set_brightness / Brightness.brightness"), ("strips", "LightStripEffect.set_effect / iot LightEffect.set_effect")],
    ["effect, effect_list, is_active and brightness after each update", "rules kept by the device", "requests at the transport"],
)
prop(
    "C29",
    "Changing one setting leaves every other setting of the device as it was",
    "After any advertised value of any settable feature of a device, or of a child of it, has been set, and the device updated, every other settable feature still reads what it read before, whichever settings had been changed earlier and to whatever values. "
    "In particular a setting that is stored together with others (alarm, auto-off, power protection, transitions, cleaning, motion sensor) is sent with the others as they are.",
    ["inputs", "histories"],
    "every pair of settings (thorough: every triple) of 24 devices and children, every value of each",
    "Tests set one feature of a recorded device and look at that feature.",
    ["kasa/feature.py", "kasa/smart/modules", "kasa/smartcam/modules", "kasa/iot/modules", "kasa/smart/smartdevice.py"],
    [("stored together", "Alarm.set_* / AutoOff.set_* / PowerProtection.set_* / LightTransition.set_* / Clean.set_* / Dustbin.set_* / Motion.set_*"), ("commands", "SmartModule.call / IotModule.call / SmartCamModule.call")],
    ["feature values before and after", "requests at the transport"],
)
prop(
    "C30",
    "Alarms, heating, timers, protection and buttons do exactly what was asked",
    "Playing or configuring an alarm, setting a heating valve's temperature or state, power protection, dimmer button actions, fade types and motion sensors: whichever optional arguments are given, the device ends up with exactly the values asked for and keeps the others; values the device does not have are refused with ValueError before anything is sent. "
    "What is shown follows from what the device reports: a valve is idle, heating or off, a timer ends when its time left has passed, a motion sensor is triggered when its reading crosses its threshold.",
    ["inputs"],
    "any integer arguments, any combination of optional ones, any stored state",
    "Tests play one alarm with one combination of arguments and compare with mocks.",
    ["kasa/smart/modules/alarm.py", "kasa/smartcam/modules/alarm.py", "kasa/smart/modules/temperaturecontrol.py", "kasa/smart/modules/autooff.py", "kasa/smart/modules/powerprotection.py", "kasa/iot/modules/dimmer.py", "kasa/iot/modules/motion.py", "kasa/iot/iotdimmer.py"],
    [("alarm", "Alarm.play / _validate_and_get_config"), ("heating", "TemperatureControl.mode / set_target_temperature"), ("dimmer", "IotDimmer.set_button_action / set_fade_type"), ("motion", "PIRConfig / Motion.pir_triggered")],
    ["requests at the transport", "module properties after an update"],
)
prop(
    "C31",
    "Firmware updates start only when there is one and are followed to their end",
    "An update is started only after the device announced one while connected to the cloud; otherwise it fails and nothing is sent. A started update is started once, the device is left alone while it flashes, errors while it reboots do not end it, every state is reported once and in order, and it ends when the device says it is idle or failed or after five minutes. "
    "What is shown about the firmware is what the device announced last; an answer that cannot be used is shown as unknown, and setting auto-update changes nothing else.",
    ["inputs", "histories", "faults"],
    "any announced firmware, any sequence of up to 4 states, flashing times and errors during an update",
    "Tests mock one fixed sequence of states.",
    ["kasa/smart/modules/firmware.py", "kasa/smart/modules/cloud.py"],
    [("update", "Firmware.update"), ("announcement", "Firmware.check_latest_firmware / update_available"), ("auto-update", "Firmware.set_auto_update_enabled")],
    ["requests at the transport with their time", "returned state, callbacks and properties"],
)
prop(
    "C32",
    "Vacuums do what was asked and show what they report",
    "Start resumes a paused vacuum and starts cleaning otherwise, pause holds a vacuum on its way home and pauses it otherwise; every command is exactly one request, and names or volumes the vacuum does not have are refused with ValueError before anything is sent. "
    "Status, errors, progress, cleaning records (in the vacuum's time zone) and consumables show exactly what this vacuum reported last, however many vacuums there are, and the state kept is the one reported.",
    ["inputs", "histories"],
    "any status and error codes, counters and times, any subset of consumables, two vacuums",
    "Tests use one recorded vacuum with a few error codes.",
    ["kasa/smart/modules/clean.py", "kasa/smart/modules/cleanrecords.py", "kasa/smart/modules/consumables.py", "kasa/smart/modules/dustbin.py", "kasa/smart/modules/mop.py", "kasa/smart/modules/speaker.py"],
    [("commands", "Clean.start / pause / resume / return_home"), ("state", "Clean.status / error / _post_update_hook"), ("records", "Records / CleanRecords"), ("consumables", "Consumables._post_update_hook / reset_consumable")],
    ["requests at the transport", "properties and features after updates", "Device.internal_state"],
)
prop(
    "C33",
    "Trying all connections finds a device that speaks any supported protocol",
    "Discover.try_connect_all returns an updated device of the right class for a host that speaks any of the supported combinations of protocol, transport, https and login version, with the host, port, timeout and credentials given; the configuration it returns reaches the same device again through Device.connect. "
    "It returns None when nothing answers, whichever way the other attempts fail; every attempt is closed and reported to the callback, only the working one as successful.",
    ["inputs", "faults"],
    "eleven kinds of hosts, seven ways in which the other attempts fail, any port and timeout",
    "Tests replace the queries by ones that answer when the classes match, for both login versions alike.",
    ["kasa/discover.py", "kasa/device_factory.py"],
    [("attempts", "Discover.try_connect_all"), ("device", "device_factory._connect / get_protocol / get_device_class_from_family")],
    ["returned device and configuration", "requests at the transports", "callback"],
)
prop(
    "C34",
    "Names, networks, accounts and stream addresses carry exactly the text given",
    "Any name given to a device, socket or child is the name it has after an update, and no other name changes. A network to join, an account to set and a delay to reboot with reach the device exactly as given, once; a device that leaves the network without answering is fine, an error it reports is raised. "
    "Networks found are listed with the details the device reports, stream addresses of cameras decode to exactly the account and stream asked for (none without an account), and cameras move by exactly the steps asked for.",
    ["inputs", "faults"],
    "any printable texts up to 6 characters, any details of networks, any movements",
    "Tests use plain letters as account and one recorded list of networks.",
    ["kasa/smart/smartdevice.py", "kasa/iot/iotdevice.py", "kasa/smartcam/smartcamdevice.py", "kasa/smartcam/modules/camera.py", "kasa/smartcam/modules/pantilt.py"],
    [("names", "set_alias / alias"), ("networks", "wifi_scan / wifi_join / update_credentials"), ("streams", "Camera.stream_rtsp_url / onvif_url"), ("movement", "PanTilt.move")],
    ["requests at the transport", "returned lists and addresses"],
)
prop(
    "C35",
    "The command line does what it is told, to the device it is told",
    "A command acts on exactly the device or child named by host, alias, id or index with exactly the values given, as the library call of its name would; values shown are those of the device. "
    "What does not exist or is out of range is refused with an error and nothing is sent; showing a value sends no command, and omitted options leave things as they are. "
    "Devices are found and connected to as the options say, every device that answers discovery is reported whatever goes wrong with another, searches end, and devices are closed in the end.",
    ["inputs", "histories", "faults"],
    "any integers and texts as values, every combination of given and omitted options, any failing device",
    "Tests run each command once on recorded devices with one set of values, with calls mocked; some commands are not run at all.",
    ["kasa/cli/common.py", "kasa/cli/main.py", "kasa/cli/discover.py", "kasa/cli/device.py", "kasa/cli/light.py", "kasa/cli/feature.py", "kasa/cli/time.py", "kasa/cli/usage.py", "kasa/cli/schedule.py", "kasa/cli/wifi.py", "kasa/cli/hub.py", "kasa/cli/vacuum.py", "kasa/iot/iotbulb.py"],
    [("device options", "main.cli"), ("children", "common.pass_dev_or_child / _get_child_device"), ("commands", "cli.light / device / feature / time / usage / schedule / wifi / hub / vacuum"), ("discovery", "discover.detail / list / config / find_dev_from_alias"), ("output", "common.json_formatter_cb")],
    ["requests at the transport", "returned values", "errors", "printed lines"],
)
prop(
    "C36",
    "Dumped device information identifies nobody and is complete",
    "The files dump_devinfo makes contain nothing that identifies a device or its owner - ids, the device half of MAC addresses, names, networks, places, accounts, setup codes - wherever it was in the answers of the device or its children or in the discovery information. "
    "Everything else is in them exactly as the device and each of its children answered, children under one made-up id each. "
    "Every device can be dumped, also when a child or the last combined query does not answer, and files go where they belong.",
    ["inputs", "faults"],
    "two versions of a device that differ in every identifying field at once, any public values, up to two children of every kind",
    "Tests dump recorded devices that were redacted already, and skip those with children.",
    ["devtools/dump_devinfo.py", "kasa/protocols/protocol.py", "kasa/protocols/smartprotocol.py", "kasa/protocols/iotprotocol.py", "kasa/discover.py"],
    [("legacy", "get_legacy_fixture"), ("smart and cameras", "get_smart_fixtures / _make_final_calls"), ("ids", "scrub_child_device_ids"), ("redaction", "_wrap_redactors / redact_data"), ("files", "handle_device")],
    ["the files' content, names and folders"],
)
prop(
    "C37",
    "A reading is the value the device reported, in its unit, and only its own",
    "Every sensor reading - temperature, humidity, contact, leak, motion, battery, signal, protections, cloud connection, setup codes, logs - shows exactly what the device last reported, with its unit, and follows every further report. "
    "A sensor behind a hub shows its own readings, never another's. "
    "A reading the device does not report is absent, and the others are still right.",
    ["inputs", "histories"],
    "all readings of a device at once, any value of their kind, two reports in a row, every optional reading left out, two sensors of a hub in either order",
    "Tests compare a feature with the property it was made from on one recorded answer, so both may be wrong together.",
    ["kasa/smart/modules/temperaturesensor.py", "kasa/smart/modules/humiditysensor.py", "kasa/smart/modules/batterysensor.py", "kasa/smart/modules/waterleaksensor.py", "kasa/smart/modules/cloud.py", "kasa/smart/modules/overheatprotection.py", "kasa/smartcam/modules/battery.py", "kasa/smartcam/modules/device.py", "kasa/iot/modules/cloud.py", "kasa/iot/modules/ambientlight.py", "kasa/smart/smartchilddevice.py"],
    [("sensor modules", "_initialize_features and properties"), ("hub children", "_update_internal_info"), ("features", "Feature.value / unit")],
    ["features of the device after each update"],
)
prop(
    "C38",
    "A device is who it says it is, everywhere and always",
    "Model, region, hardware and firmware version and build, MAC address, name, id, place and kind of a device and of each of its children are those it reports, in one form for all protocols, wherever they are asked for. "
    "They are the same from discovery as after an update, and follow every update. "
    "A child is found by its id, its name in any case, and its position, and nothing is found that is not there.",
    ["inputs", "histories"],
    "all identifying texts any letters and digits at once, every combination of families and deciding components, three states of the device in a row",
    "Tests compare identities of recorded devices, whose names, addresses and ids are all masked alike.",
    ["kasa/device.py", "kasa/iot/iotdevice.py", "kasa/iot/iotstrip.py", "kasa/smart/smartdevice.py", "kasa/smart/smartchilddevice.py", "kasa/smartcam/smartcamdevice.py", "kasa/smartcam/smartcamchild.py"],
    [("device information", "_get_device_info / device_info"), ("kind", "device_type"), ("lookup", "get_child_device / get_plug_by_name / get_plug_by_index"), ("mapping", "_map_info / _map_child_info_from_parent")],
    ["properties of devices and children"],
)
prop(
    "C39",
    "Old names do exactly what replaced them",
    "Every deprecated name - of devices, light and energy modules, light presets and classes - still gives the value, sends the requests, returns the result and fails with the error of what replaced it, for any state of the device and any arguments. "
    "Where a device lacks the module behind an old name there is no such attribute, and names that never existed do not exist either.",
    ["inputs", "histories"],
    "any light, indicator, effect and energy state, any integers as arguments, every old name on 17 kinds of devices and their children",
    "Tests look whether an old name exists and call a few with one value.",
    ["kasa/device.py", "kasa/interfaces/light.py", "kasa/interfaces/energy.py", "kasa/__init__.py", "kasa/iot/modules/lightpreset.py", "kasa/iot/modules/lighteffect.py", "kasa/iot/modules/emeter.py"],
    [("device names", "Device.__getattr__ / _deprecated_other_attributes / _deprecated_device_type_attributes"), ("light names", "Light.__getattr__"), ("energy names", "Energy.__getattr__ / _deprecated_attributes"), ("presets", "_deprecated_presets / _deprecated_save_preset"), ("classes", "kasa.__getattr__")],
    ["requests at the transport", "returned values", "errors"],
)
prop(
    "C40",
    "A device offers exactly what it declares, and all of it works",
    "Whatever components, services and abilities a device declares, in whatever versions, it can be updated, and it and each child have exactly the modules and features that stand for them - none more, none less. "
    "It is asked for what those need and for nothing it did not declare. "
    "Every feature it offers has a value, and what it cannot do is not shown.",
    ["inputs"],
    "up to two of the components missing or all but two, any versions of them, any ability flags and feature words, one or two services refused",
    "Tests run recorded devices, each with the one list of components it was recorded with.",
    ["kasa/smart/smartdevice.py", "kasa/smart/smartmodule.py", "kasa/smart/modules/firmware.py", "kasa/smart/modules/energy.py", "kasa/smart/modules/lighttransition.py", "kasa/smartcam/smartcamdevice.py", "kasa/smartcam/modules/battery.py", "kasa/iot/iotdevice.py", "kasa/iot/iotplug.py", "kasa/iot/iotbulb.py", "kasa/iot/modules/light.py", "kasa/module.py"],
    [("components", "_initialize_modules / _check_supported / supported_version"), ("services", "IotModule.is_supported"), ("features", "_initialize_features"), ("queries", "SmartModule.query"), ("abilities", "Module.has_feature")],
    ["modules and features of the device", "requests at the transport"],
)
prop(
    "C41",
    "Looking at a device changes nothing; a failed update leaves no trace",
    "Reading properties, features and modules of a device sends nothing, changes nothing that is kept of it, and gives the same whatever was read before and in whatever order. "
    "Before the first update a device says that it needs one and makes nothing up. "
    "After a first update that failed at any point, a further one brings the device to the state it would have had without the failure, whatever was read in between.",
    ["inputs", "histories", "faults"],
    "any light, indicator, effect and energy state, every property in two orders, failure at any request of the first update in three ways",
    "Tests read each value once after a first update that succeeded.",
    ["kasa/device.py", "kasa/module.py", "kasa/feature.py", "kasa/iot/iotdevice.py", "kasa/iot/iotbulb.py", "kasa/smart/smartdevice.py", "kasa/smartcam/smartcamdevice.py"],
    [("first update", "update / _initialize_modules / _initialize_features"), ("requires_update", "iotdevice.requires_update"), ("lookup of features", "_get_bound_feature")],
    ["all public values", "requests at the transport", "internal_state"],
)
prop(
    "C42",
    "A search asks so that devices answer, and makes the devices it finds usable",
    "A search sends both questions as often as it was told, spread over the time it was given, to the target, port and interface it was told - one device given by name at the name's first address - and each is one a device accepts: the legacy query in the legacy cipher, and a probe with the right length, a public key and a correct checksum for whatever serial was drawn. "
    "Details that a device encrypts for that key are shown as the device wrote them, and unreadable ones never hide the device or are made up. "
    "A device that is found has the caller's credentials, timeout and port, and its raw answer is handed over as it came.",
    ["inputs"],
    "every serial and port, one to four packets in three times, names and addresses, credentials in four ways, any timeout, encrypted details intact or altered",
    "Tests look at the number of packets for default options and replace the query and the keys.",
    ["kasa/discover.py", "kasa/transports/aestransport.py", "kasa/transports/xortransport.py"],
    [("probe", "_AesDiscoveryQuery.generate_query"), ("asking", "_DiscoverProtocol.do_discover / connection_made"), ("addresses", "Discover.discover_single"), ("encrypted details", "Discover._decrypt_discovery_data"), ("configuration", "_DiscoverProtocol.datagram_received")],
    ["datagrams and when they are sent", "socket options", "configuration of the devices found"],
)
prop(
    "C43",
    "Logging changes nothing, and every message can be written",
    "With logging on, down to debug messages, every operation - sessions, retries, discovery, updates, children, commands - gives the same results and sends the same as with logging off, whatever the device reports and whatever fails. "
    "Every message the package logs on the way can be written: the values for its placeholders are there and fit.",
    ["inputs", "histories", "faults"],
    "the inputs, faults and histories of 82 scenarios of other properties; 14 oddities in what devices report",
    "Tests run with logging off or look at single messages; a message that cannot be written is swallowed by the logging module.",
    ["kasa/smart/smartdevice.py", "kasa/discover.py", "kasa/transports/klaptransport.py", "kasa/transports/sslaestransport.py", "kasa/httpclient.py", "kasa/protocols/smartprotocol.py", "kasa/protocols/iotprotocol.py", "kasa/device_factory.py", "kasa/iot/modules/motion.py", "kasa/smart/modules/clean.py"],
    [("debug only work", "_LOGGER.isEnabledFor branches"), ("messages", "_LOGGER calls of all modules")],
    ["results and exceptions", "requests at the transport", "log records"],
)
prop(
    "C44",
    "Updates and commands at the same time do what they do one after another",
    "Two updates of a device at the same time, first or later ones, both succeed and leave the device as one leaves it; cancelling one of them at any point leaves the other's outcome untouched. "
    "A command given while an update or a command for something else is under way is sent exactly as it would be alone, has the same outcome, and the next update shows what it would show.",
    ["schedules", "inputs"],
    "the second operation starting, and the first being cancelled, at any request; any light, indicator, effect and energy state",
    "Tests run one operation after another.",
    ["kasa/smart/smartdevice.py", "kasa/smartcam/smartcamdevice.py", "kasa/iot/iotdevice.py", "kasa/iot/iotstrip.py", "kasa/protocols/smartprotocol.py", "kasa/protocols/iotprotocol.py"],
    [("first update", "update / _negotiate / _initialize_modules / _initialize_features"), ("children", "_create_delete_children"), ("queries", "query locks of the protocols")],
    ["features and modules of the device and its children", "requests at the transport"],
)
prop(
    "C45",
    "A command that fails leaves no trace",
    "When the device refuses a command, cannot be reached, takes too long, or the command is cancelled, the command ends with that error and nothing the device object shows changes. "
    "Every command given later is sent exactly as it would have been without the failed one, has the same outcome, and leaves the device object showing the same.",
    ["faults", "inputs", "histories"],
    "every settable feature and some 20 further commands with any advertised value, four kinds of failure, followed by every other command",
    "Tests let commands succeed, or check the error alone; what stays behind shows only with the next command.",
    ["kasa/smart/modules/alarm.py", "kasa/smart/modules/lighteffect.py", "kasa/smart/modules/lighttransition.py", "kasa/smart/modules/lightpreset.py", "kasa/smart/modules/autooff.py", "kasa/smart/smartdevice.py", "kasa/smartcam/smartcamdevice.py", "kasa/iot/iotdevice.py", "kasa/iot/iotbulb.py", "kasa/iot/modules/lighteffect.py", "kasa/iot/modules/lightpreset.py", "kasa/feature.py"],
    [("setters", "set_* methods of modules and devices"), ("stored state", "data / _last_update / _sys_info used to build commands")],
    ["features, modules and properties of the device and its children", "requests at the transport", "exceptions"],
)
