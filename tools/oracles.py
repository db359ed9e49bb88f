O["C01"] = "the autokey recurrence written out per byte over bit vectors"
O["C02"] = "the byte stream handed to the socket stand-in and its framing"
O["C03"] = "a counter model of attempts, resets, delays per kind of failure"
O["C04"] = "the trace of requests entering and leaving the transport"
O["C05"] = "a device that answers each method with a value only it knows"
O["C06"] = "the device's list, compared element by element"
O["C07"] = "the class each code belongs to, written down from the documentation of the exceptions"
O["C08"] = "a device with distinguishable children; requests recorded at the transport"
O["C09"] = "a reference peer written from the protocol description (checks/klapsim.py)"
O["C10"] = "a reference peer holding the device's end of the session"
O["C11"] = "a reference peer (checks/aessim.py)"
O["C12"] = "a reference camera holding nonce, password and session keys"
O["C13"] = "a scripted device and the recorded requests"
O["C14"] = "the scripted outcome of each HTTP exchange and a virtual clock"
O["C15"] = "non-interference: two runs that differ in a sensitive value only"
O["C16"] = "field by field equality"
O["C17"] = "tables written down from the documentation"
O["C18"] = "a per-host reference: the first answer of a host decides"
O["C19"] = "a device that stores what it is told (checks/statesim.py); the value sent is the value read back"
O["C20"] = "a light that stores what it is told (checks/statesim.py), compared setting by setting with the request"
O["C21"] = "a reference scheduler (last read, consecutive failures) per module, and answers stamped with the update they belong to"
O["C22"] = "the list the simulated hub gave last, compared child by child"
O["C23"] = "the simulated device, which stamps each answer with the update and the socket it was for; the size limit is a free number"
O['C24'] = 'the relay states and readings the check gave each socket; sums computed by the check'
O['C25'] = 'the readings put into the simulated answers, converted by the check'
O['C26'] = "the instant or wall clock the check gave the simulated device; the model of Python's datetime in engine/sym.py, compared with the real one by tools/test_symdt.py"
O["C27"] = "the list the simulated device keeps (light presets among effects, in any arrangement), compared entry by entry before and after the command; the preset named must match the light and no earlier one may"
O["C28"] = "the rules and effect states the simulated light keeps, compared before and after; a copy of the built-in tables taken before anything runs"
O["C29"] = "the readings of all other settings taken just before, from a simulated device that stores what it is told (statesim.py); the few settings that depend on each other are listed in the check"
O["C30"] = "the settings the simulated device keeps, compared with the arguments; for readings the arithmetic of the protocol documents (end of a timer, motion threshold), asserted as solver terms"
O["C31"] = "the schedule of states the simulated device plays, with the virtual time of each request; the announced fields compared with what is shown"
O["C32"] = "the state the simulated vacuum was given, kept aside before the first update; commands by the table in the property"
O["C33"] = "a host that accepts exactly one way to talk to it (protocol, transport, https, port, form of the login), written down in the check as a table"
O["C34"] = "the text given, compared symbol by symbol with what the device received after base64 and with the stream address taken apart by RFC 3986; base64 and percent-encoding are modelled bit-exactly for symbolic text"
O["C35"] = "the state of the light after the command for light commands; a second device in the same state driven by the library call the command stands for, requests and results compared symbol by symbol; for the options of the command line a table of device, connection and credentials written down in the check"
O["C36"] = "independence: two versions of the device that differ in all identifying fields must give the same files; with those fields left out, the files equal the answers the simulated device gave; a table of where files go"
O["C37"] = "a table written from the device protocol: which reported field each feature shows, converted how, in which unit"
O["C38"] = "the parts (model, region, version, build, half of the address) the texts were put together from; a table of kinds by family and component"
O["C39"] = "a twin: a second device in the same state to which the replacing call is made; a table of old names written from the migration notes"
O["C40"] = "a table of components, services and ability flags and what each stands for (module, features, queries by version)"
O["C41"] = "the device itself: a second look in reverse order, and a second device in the same state whose first update did not fail"
O["C42"] = "a device written from the protocol description: it checks the probe (length, flags, checksum) and encrypts its details for the key in it; a table of when and where questions are due"
O["C43"] = "the assertions of the scenarios taken; a second device in the same state without logging; Python's own % formatting of each message"
O["C44"] = "a second device in the same state to which the same happens one after another"
O["C45"] = "a second device in the same state to which the failed command was never given"
