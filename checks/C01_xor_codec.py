"""Legacy cipher and frame: exact inverse, exact length, exact reference."""

from __future__ import annotations

import asyncio
import json

from engine.ctx import And

BOUNDS = (
    "payloads of every length 0..N (quick N=24, thorough N=160), every byte symbolic "
    "(ASCII text for encrypt, every byte value 0..255 for the ciphertext of decrypt up to the "
    "UTF-8 decoding step); one request/response exchange over the stream with symbolic request text and "
    "sampled response documents, cut at every byte"
)
OUTSIDE = "the optional kasa_crypt C extension (not Python source); non-ASCII text is checked on fixed samples only"
QUICK_S, THOROUGH_S = 40, 600
WITNESSES = ["codec", "decode", "frame", "short-read"]
IV = 171


def _ref_enc(bs):
    out, key = [], IV
    for b in bs:
        key = key ^ b
        out.append(key)
    return out


def codec(c, n):
    from kasa.transports.xortransport import XorEncryption

    s = c.str("msg", n, 0, 127)
    w = XorEncryption.encrypt(s)
    c.check(len(w) == 4 + n, "frame length is four bytes plus the payload")
    c.check(
        And(*[w[i] == (n >> (24 - 8 * i)) & 255 for i in range(4)]),
        "the header is the big endian payload length",
    )
    body = w[4:]
    ref = _ref_enc(list(s.encode()))
    c.check(And(*[body[i] == ref[i] for i in range(n)], True), "every byte is the autokey cipher byte")
    d = XorEncryption.decrypt(body)
    c.check(d == s, "decrypt inverts encrypt")
    c.check(len(d) == n, "decrypt keeps the length")
    c.reach("codec")


def decode(c, n):
    """decrypt() of an arbitrary ciphertext whose plaintext is text."""
    from kasa.transports.xortransport import XorEncryption

    p = c.str("plain", n, 0, 127)
    ct = _ref_enc(list(p.encode()))
    raw = type(p.encode())(ct) if c.symbolic else bytes(ct)
    if n == 0:
        raw = b""
    c.check(XorEncryption.decrypt(raw) == p, "a device's ciphertext decrypts to its plaintext")
    c.reach("decode")


def unicode_samples(c):
    from kasa.transports.xortransport import XorEncryption

    s = c.choice("s", ["é", "灯", "a😀b", "ÿ\u0000z", '{"alias":"Büro"}', "\u07ff\u0800\uffff"])
    w = XorEncryption.encrypt(s)
    b = s.encode()
    c.check(w[:4] == len(b).to_bytes(4, "big"), "length counts encoded bytes")
    c.check(list(w[4:]) == _ref_enc(list(b)), "bytes of non-ASCII text")
    c.check(XorEncryption.decrypt(w[4:]) == s, "non-ASCII round trip")


class Reader:
    def __init__(self, data):
        self.data = data
        self.pos = 0

    async def readexactly(self, n):
        await asyncio.sleep(0)
        if self.pos + n > len(self.data):
            raise asyncio.IncompleteReadError(bytes(0), n)
        out = self.data[self.pos : self.pos + n]
        self.pos += n
        return out


class Sock:
    def setsockopt(self, *a):
        pass


class Writer:
    def __init__(self):
        self.frames = []
        self.closed = 0

    def get_extra_info(self, n):
        return Sock()

    def write(self, d):
        self.frames.append(d)

    async def drain(self):
        pass

    def close(self):
        self.closed += 1

    async def wait_closed(self):
        pass


def stream(c, n, cut=None, extra=0):
    """A response split anywhere or cut short; exactly one frame is consumed."""
    from kasa import DeviceConfig
    from kasa.transports.xortransport import XorTransport

    req = c.str("req", n, 32, 126)
    plain = c.choice("resp", ['{"a":{"v":123}}', '{"system":{"set_relay_state":{"err_code":0}}}', '{"n":"Büro"}']) if cut is None else '{"a":{"v":123}}'
    pb = plain.encode()
    enc = _ref_enc(list(pb))
    frame = list(len(pb).to_bytes(4, "big")) + enc + [0] * extra
    if cut is not None:
        frame = frame[:cut]
    raw = bytes(frame)
    w = Writer()
    r = Reader(raw)

    async def op(host, port):
        return r, w

    c.patch(asyncio, "open_connection", op)
    t = XorTransport(config=DeviceConfig("127.0.0.1"))
    o = c.attempt(t.send(req))
    c.check(len(w.frames) == 1, "exactly one frame is written")
    f = w.frames[0]
    c.check(len(f) == 4 + n, "request frame length")
    c.check(And(*[f[4 + i] == x for i, x in enumerate(_ref_enc(list(req.encode())))], True), "request frame bytes")
    if cut is None:
        c.check(o.ok, "a complete response frame is accepted", lambda: repr(o))
        c.check(o.value == json.loads(plain), "the response is the decoded payload")
        c.check(r.pos == 4 + len(pb), "exactly the announced bytes are read")
        c.reach("frame")
    else:
        c.check(not o.ok, "a truncated response is never returned as a result")
        c.check(w.closed == 1, "the connection of a truncated response is closed")
        c.reach("short-read")


def scenarios(tier):
    N = 24 if tier == "quick" else 160
    out = [(f"codec-{n}", codec, {"n": n}) for n in range(N + 1)]
    out += [(f"decode-{n}", decode, {"n": n}) for n in range(0, N + 1, 4)]
    out += [("unicode", unicode_samples)]
    out += [("stream", stream, {"n": 8}), ("stream-extra", stream, {"n": 5, "extra": 3})]
    out += [(f"stream-cut-{k}", stream, {"n": 2, "cut": k}) for k in range(0, 19)]
    return out
