"""Asking: what a search sends, to whom and how often, and what it makes of encrypted answers."""

from __future__ import annotations

import asyncio
import base64
import binascii
import functools
import json
import socket

from engine.ctx import And, Not, Or, sym_eq

BOUNDS = (
    "searches for all devices and for one, by address or by name (resolved to any of two addresses, or not at all), with the default or any other legacy port, one to four packets over 1, 5 or 10 s, "
    "with and without an interface, every 4-byte serial, credentials given as such, as user name and password (either may be empty) or not, and any timeout; one device answering on either port "
    "with its details encrypted with the public key that was sent, from three documents, intact or altered in the key, the data or the text; three devices, supported or not, answering while the caller takes 0, 1 or 20 s for each"
)
OUTSIDE = "sockets (a stand-in records what is sent), RSA and AES themselves (the native library runs), the JSON writer"
WITNESSES = ["packets", "interface", "one", "one-name", "unknown-name", "found", "decrypted", "not-decrypted", "many"]
QUICK_S, THOROUGH_S = 120, 400

HOST = "10.0.0.7"


@functools.cache
def _rsa(size):
    from cryptography.hazmat.primitives.asymmetric import rsa

    return rsa.generate_private_key(public_exponent=65537, key_size=size)


class Wire:
    """The socket and its transport."""

    def __init__(self):
        self.sent, self.options, self.closed, self.t0 = [], [], 0, None

    def get_extra_info(self, name, default=None):
        return self

    def setsockopt(self, *a):
        self.options.append(a)

    def sendto(self, data, addr=None):
        loop = asyncio.get_running_loop()
        self.sent.append((data, addr, loop.time() - self.t0))

    def close(self):
        self.closed += 1

    abort = close


def prepare(c, wire, answers=(), free=False):
    """Discovery over the wire; answers: (delay, data or function of what was sent, address)."""
    import secrets

    import kasa.discover as d

    import kasa.transports.aestransport as at

    class Rsa:
        @staticmethod
        def generate_private_key(public_exponent, key_size, backend=None):
            return _rsa(key_size)

    c.patch(at, "rsa", Rsa)
    c.patch(d._AesDiscoveryQuery, "keypair", None)
    if free:
        real = secrets.token_bytes
        c.patch(secrets, "token_bytes", lambda n=32: c.bytes("serial", n) if n == 4 else real(n))

    async def endpoint(factory, **kw):
        loop = asyncio.get_running_loop()
        wire.t0 = loop.time()
        p = factory()
        loop.call_soon(p.connection_made, wire)
        for delay, data, addr in answers:
            loop.call_later(delay, lambda data=data, addr=addr: p.datagram_received(data() if callable(data) else data, addr))
        return wire, p

    return endpoint


def deobfuscate(data):
    """The legacy cipher: every byte is combined with the encrypted byte before it."""
    out, key = bytearray(), 0xAB
    for b in data:
        out.append(b ^ key)
        key = b
    return bytes(out)


def probe_ok(c, data):
    """A request of the newer protocol, as a device checks it."""
    c.check(sym_eq(data[:4], b"\x02\x00\x00\x01"), "the request is a probe of version 2", lambda: data)
    body = bytes(data[16:])
    c.check(sym_eq(data[4:6], len(body).to_bytes(2, "big")), "the request says how long it is", lambda: data)
    c.check(sym_eq(data[6:8], b"\x11\x00"), "the request has the flags of a probe", lambda: data)
    crc = _crc(data[:12], b"\x5a\x6b\x7c\x8d" + body)
    c.check(sym_eq(data[12:16], crc), "the request has the checksum a device computes", lambda: (data[:16], crc))
    info = json.loads(body)
    c.check(list(info) == ["params"] and list(info["params"]) == ["rsa_key"], "the request carries a key", lambda: info)
    pem = info["params"]["rsa_key"]
    from cryptography.hazmat.primitives import serialization

    pub = serialization.load_pem_public_key(pem.encode())
    c.check(pub.key_size >= 2048, "the key is a strong one")
    return pub


def _crc(head, tail):
    """crc32 over a head that may be free and a fixed tail."""
    from engine import sym

    if all(type(x) is int for x in head):
        return binascii.crc32(bytes(head) + tail).to_bytes(4, "big")
    out = sym.crc32(list(head) + list(tail))
    return out.to_bytes(4, "big")


def packets(c, single):
    from kasa import Discover, KasaException

    wire = Wire()
    n = c.choice("packets", [1, 2, 3, 4]) if not single else 3
    timeout = c.choice("discovery timeout", [5, 1, 10])
    port = c.int("port", 1, 65535) if c.bool("other port") else None
    k = {"discovery_timeout": timeout}
    if port is not None:
        k["port"] = port
    host = "255.255.255.255"
    iface = None
    unknown = False
    resolved = []
    endpoint = prepare(c, wire, free=True)
    if single:
        name = HOST
        if c.bool("name"):
            name = "plug.example"
            host = c.choice("resolves to", [HOST, "10.0.0.8", None])
            unknown = host is None
        else:
            host = HOST
    else:
        k["discovery_packets"] = n
        if c.bool("interface"):
            iface = k["interface"] = "eth7"
        if c.bool("target"):
            host = k["target"] = "10.0.0.255"

    async def go():
        loop = asyncio.get_running_loop()
        loop.create_datagram_endpoint = endpoint

        async def resolve(h, p, **kw):
            resolved.append(h)
            if host is None:
                raise socket.gaierror(-2, "unknown")
            return [(socket.AF_INET, socket.SOCK_DGRAM, 17, "", (host, 0)), (socket.AF_INET, socket.SOCK_DGRAM, 17, "", ("10.9.9.9", 0))]

        loop.getaddrinfo = resolve
        t0 = loop.time()
        try:
            return await (Discover.discover_single(name, **k) if single else Discover.discover(**k))
        finally:
            wire.ended = loop.time() - t0

    o = c.attempt(go())
    if unknown:
        c.check(o.raised(KasaException) and not wire.sent, "a name nobody knows is an error", lambda: repr(o))
        c.reach("unknown-name")
        return
    from kasa import TimeoutError as KTimeout

    c.check(o.raised(KTimeout) if single else o.ok and o.value == {}, "nobody answered", lambda: repr(o))
    c.check(wire.closed >= 1, "the socket is closed")
    c.check(abs(wire.ended - timeout) < 0.01, "the search takes as long as it was given", lambda: wire.ended)
    old = [x for x in wire.sent if not sym_eq(x[1][1], 20002) or (port is not None and len(x[0]) < 100)]
    new = [x for x in wire.sent if not any(x is y for y in old)]
    c.check(len(old) == n and len(new) == n, "both questions are asked as often as told", lambda: [(x[1], len(x[0])) for x in wire.sent])
    for what in (old, new):
        for i, (data, addr, at) in enumerate(what):
            c.check(addr[0] == host, "the question goes to the target", lambda: addr)
            c.check(abs(at - i * timeout / n) < 0.01, "the questions are spread over the time given", lambda: (at, i, n))
    for data, addr, at in old:
        c.check(sym_eq(addr[1], 9999 if port is None else port), "the legacy question goes to the legacy port, or to the one given", lambda: addr)
        c.check(json.loads(deobfuscate(data)) == {"system": {"get_sysinfo": {}}}, "the legacy question asks for the system's information", lambda: data)
    for data, addr, at in new:
        c.check(sym_eq(addr[1], 20002), "the new question goes to the new port")
    if new:
        probe_ok(c, new[0][0])
    c.check((socket.SOL_SOCKET, socket.SO_BROADCAST, 1) in wire.options, "broadcasts are allowed", lambda: wire.options)
    bound = [x for x in wire.options if x[1] == socket.SO_BINDTODEVICE]
    c.check([x[2] for x in bound] == ([b"eth7"] if iface else []), "the socket is bound to the interface given", lambda: wire.options)
    c.reach("interface" if iface else "one-name" if resolved else "one" if single else "packets")


def legacy_answer(data):
    out, key = bytearray(), 0xAB
    for b in json.dumps(data).encode():
        key = b ^ key
        out.append(key)
    return bytes(out)


SYSINFO = {"system": {"get_sysinfo": {"err_code": 0, "type": "IOT.SMARTPLUGSWITCH", "model": "HS100(UK)", "alias": "a", "deviceId": "1", "mac": "50:C7:BF:00:00:01", "hw_ver": "1", "sw_ver": "1", "relay_state": 0, "feature": "TIM"}}}


def new_info(**more):
    return {
        "error_code": 0,
        "result": {
            "device_id": "id7",
            "owner": "o",
            "device_type": "SMART.TAPOPLUG",
            "device_model": "P110(UK)",
            "ip": HOST,
            "mac": "00-00-00-00-00-07",
            "is_support_iot_cloud": True,
            "obd_src": "tplink",
            "factory_default": False,
            "mgt_encrypt_schm": {"is_support_https": False, "encrypt_type": "AES", "http_port": 80, "lv": 2},
            **more,
        },
    }


def found(c, single, port):
    """A device that was found is one the caller can use: with what the caller said."""
    from kasa import Credentials, Discover

    wire = Wire()
    k = {}
    how = c.choice("credentials", ["none", "given", "texts", "both"])
    user, pw = ("", "")
    if how in ("texts", "both"):
        user, pw = c.choice("user", ["someone", ""]), c.choice("password", ["pw", ""])
    cred = Credentials("me", "secret")
    if how in ("given", "both"):
        k["credentials"] = cred
    if how in ("texts", "both"):
        k["username"], k["password"] = user, pw
    timeout = c.int("timeout", 1, 1000) if c.bool("timeout given") else None
    if timeout is not None:
        k["timeout"] = timeout
    other = bool(c.bool("other port"))
    if other:
        k["port"] = 9998
    where = (9998 if other else 9999) if port == 9999 else 20002
    raw, seen = [], []
    if c.bool("raw"):
        k["on_discovered_raw"] = raw.append
    name = c.choice("asked for", [HOST, "plug.example"]) if single else HOST
    model = c.choice("model", ["P110(UK)", "HS100", "SWITCHBOARD9(EU)"])
    if port == 9999:
        info = {"system": {"get_sysinfo": {**SYSINFO["system"]["get_sysinfo"], "model": model}}}
    else:
        info = new_info(device_model=model)
    data = legacy_answer(info) if port == 9999 else b"\x02" + bytes(15) + json.dumps(info).encode()
    endpoint = prepare(c, wire, [(0.5, data, (HOST, where))])

    async def go():
        asyncio.get_running_loop().create_datagram_endpoint = endpoint

        async def on(dev):
            seen.append(dev)

        if single:
            loop = asyncio.get_running_loop()

            async def resolve(h, p, **kw):
                return [(socket.AF_INET, socket.SOCK_DGRAM, 17, "", (HOST, 0))]

            loop.getaddrinfo = resolve
            return await Discover.discover_single(name, **k)
        return await Discover.discover(on_discovered=on, **k)

    o = c.attempt(go())
    c.check(o.ok, "the device is found", lambda: repr(o))
    if not o.ok:
        return
    if single:
        dev = o.value
    else:
        c.check(list(o.value) == [HOST] and seen == list(o.value.values()), "the device is reported once", lambda: (o.value, seen))
        dev = o.value[HOST]
    cfg = dev.config
    c.check(dev.model == model.partition("(")[0], "the model is the one discovered", lambda: (dev.model, model))
    c.check(dev.mac == ("50:C7:BF:00:00:01" if port == 9999 else "00:00:00:00:00:07"), "the address is the one discovered", lambda: dev.mac)
    c.check(dev.host == name and cfg.host == (name if single else HOST), "the device is the one at that address", lambda: cfg.host)
    want = cred if how in ("given", "both") else Credentials(user, pw) if how == "texts" and len(user) and len(pw) else None
    got = cfg.credentials
    if want is None:
        c.check(got is None or not (got.username or got.password), "no credentials are made up", lambda: got)
    else:
        c.check(got is not None and sym_eq(got.username, want.username) and sym_eq(got.password, want.password), "the device has the caller's credentials", lambda: (got, want))
    c.check(sym_eq(cfg.timeout, 5 if timeout is None else timeout), "the device has the caller's timeout", lambda: cfg.timeout)
    c.check(cfg.port_override == (9998 if other else None), "the device is asked on the caller's port", lambda: cfg.port_override)
    if "on_discovered_raw" in k:
        c.check(len(raw) == 1 and raw[0]["discovery_response"] == info and raw[0]["meta"] == {"ip": HOST, "port": where}, "the answer is handed over as it came", lambda: raw)
    c.check(len(wire.sent) == (2 if single else 6), "a search for one device ends when it answered", lambda: len(wire.sent))
    c.reach("found")


def many(c):
    """Several devices answer: the search ends when everything is handed over."""
    from kasa import Discover

    wire = Wire()
    hosts = [f"10.0.0.{i}" for i in (7, 8, 9)]
    kinds = [c.choice(f"kind {i}", ["device", "unsupported"]) for i in range(3)]
    takes = [c.choice(f"takes {i}", [0, 1, 20]) for i in range(3)]
    at = [0.5, c.choice("second", [0.5, 2]), 4.75]
    answers = []
    for h, k, t in zip(hosts, kinds, at):
        info = new_info(ip=h, device_id=h, device_type="SMART.TAPOPLUG" if k == "device" else "NEW")
        answers.append((t, b"\x02" + bytes(15) + json.dumps(info).encode(), (h, 20002)))
    endpoint = prepare(c, wire, answers)
    begun, done = [], []

    async def go():
        asyncio.get_running_loop().create_datagram_endpoint = endpoint

        async def on(dev):
            begun.append(dev.host)
            await asyncio.sleep(takes[hosts.index(dev.host)])
            done.append(dev.host)

        async def un(ex):
            begun.append(ex.host)
            await asyncio.sleep(takes[hosts.index(ex.host)])
            done.append(ex.host)

        return await Discover.discover(on_discovered=on, on_unsupported=un)

    o = c.attempt(go())
    c.check(o.ok, "the search ends", lambda: repr(o))
    if not o.ok:
        return
    c.check(begun == hosts, "every answer is reported once, as it comes", lambda: begun)
    c.check(sorted(done) == hosts, "a search ends when everything found has been handed over", lambda: done)
    c.check(list(o.value) == [h for h, k in zip(hosts, kinds) if k == "device"] and all(o.value[h].host == h for h in o.value), "the devices found are returned", lambda: o.value)
    c.reach("many")


DOCS = ['{"device_id": "x", "connect_type": "wireless", "connect_ssid": "home", "http_port": 443}', "{}", '{"a": {"b": ["\\u00e4", 1.5, null]}}']


def encrypted(c):
    """A device encrypts its details for the key that was sent."""
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import padding
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
    from kasa import Discover

    wire = Wire()
    doc = c.choice("doc", DOCS)
    harm = c.choice("harm", ["none", "key", "data", "text"])
    key, iv = bytes(range(c.pick("k", 3), 100))[:16], bytes(range(c.pick("v", 3) + 50, 150))[:16]

    def answer():
        probe = next(bytes(x[0]) for x in wire.sent if x[1][1] == 20002)
        from cryptography.hazmat.primitives import serialization

        pub = serialization.load_pem_public_key(json.loads(probe[16:])["params"]["rsa_key"].encode())
        sealed = pub.encrypt(key + iv, padding.OAEP(mgf=padding.MGF1(hashes.SHA1()), algorithm=hashes.SHA1(), label=None))
        text = (doc[:-1] if harm == "text" else doc).encode()
        pad = 16 - len(text) % 16
        e = Cipher(algorithms.AES(key), modes.CBC(iv)).encryptor()
        data = e.update(text + bytes([pad]) * pad) + e.finalize()
        if harm == "data":
            data = data[:-1]
        if harm == "key":
            sealed = sealed[:-1] + bytes([sealed[-1] ^ 1])
        sealed, data = base64.b64encode(sealed).decode(), base64.b64encode(data).decode()
        info = new_info(encrypt_info={"sym_schm": "AES", "key": sealed, "data": data})
        return b"\x02" + bytes(15) + json.dumps(info).encode()

    endpoint = prepare(c, wire, [(0.5, answer, (HOST, 20002))])

    async def go():
        asyncio.get_running_loop().create_datagram_endpoint = endpoint
        return await Discover.discover_single(HOST)

    o = c.attempt(go())
    c.check(o.ok, "the device is found whether or not its details can be read", lambda: repr(o))
    if not o.ok:
        return
    got = o.value._discovery_info.get("decrypted_data")
    if harm == "none":
        c.check(got == json.loads(doc), "the details are those the device encrypted", lambda: got)
        c.reach("decrypted")
    else:
        c.check(got is None, "details that cannot be read are not made up", lambda: got)
        c.reach("not-decrypted")


def scenarios(tier):
    out = [("packets-all", packets, {"single": False}), ("packets-one", packets, {"single": True}), ("encrypted", encrypted, {}), ("many", many, {})]
    out += [(f"found-{'one' if s else 'all'}-{p}", found, {"single": s, "port": p}) for s in (False, True) for p in (9999, 20002)]
    return out
