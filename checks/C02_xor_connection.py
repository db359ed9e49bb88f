"""TCP connection lifecycle and error classification of the legacy transport."""

from __future__ import annotations

import asyncio
import errno
import json

from engine.ctx import Not, Or, acatch

BOUNDS = (
    "histories of K consecutive sends on one transport (quick K=2, thorough K=3); for every send the "
    "solver chooses where the exchange fails: connect (hang, refused, OSError with any errno, other "
    "exception, cancelled), socket setup, write, drain, header (hang/EOF/OSError/cancelled), body "
    "(hang/EOF/cancelled), undecodable payload, or not at all, and whether wait_closed() itself fails; "
    "a response that was not read stays in that connection's buffer"
)
OUTSIDE = "real sockets; partial writes are represented by a failing drain"
WITNESSES = ["ok", "reuse", "reconnect", "timeout", "refused", "retryable", "cancelled", "close"]
QUICK_S, THOROUGH_S = 60, 600
NO_RETRY = {errno.EHOSTDOWN, errno.EHOSTUNREACH, errno.ECONNREFUSED}


def enc(s):
    out, key = [], 171
    for b in s.encode():
        key ^= b
        out.append(key)
    return len(out).to_bytes(4, "big") + bytes(out)


def dec(b):
    out, key = [], 171
    for x in b:
        out.append(key ^ x)
        key = x
    return bytes(out).decode()


class Boom(Exception):
    pass


FAULTS = [
    "ok", "connect-hang", "connect-refused", "connect-oserror", "connect-exc", "connect-cancel",
    "sockopt", "write", "drain", "hdr-hang", "hdr-eof", "hdr-oserror", "hdr-cancel",
    "body-hang", "body-eof", "body-cancel", "badjson",
]  # fmt: skip
CONNECT = {f for f in FAULTS if f.startswith("connect") or f == "sockopt"}


class World:
    def __init__(self, c):
        self.c = c
        self.fault = "ok"
        self.errno = None
        self.conns = []
        self.wc_fails = False

    async def open(self, host, port, **kw):
        w = self
        w.c.check(not any(not x.closed for x in w.conns), "at most one connection is open")
        f = w.fault
        await asyncio.sleep(0)
        if f == "connect-hang":
            await asyncio.get_running_loop().create_future()
        if f == "connect-refused":
            raise ConnectionRefusedError(errno.ECONNREFUSED, "refused")
        if f == "connect-oserror":
            e = OSError("os error")
            e.errno = w.errno
            raise e
        if f == "connect-exc":
            raise Boom("connect")
        if f == "connect-cancel":
            raise asyncio.CancelledError
        conn = Conn(w)
        w.conns.append(conn)
        return conn, conn


class Conn:
    """Both reader and writer of one connection; the peer echoes requests."""

    def __init__(self, w):
        self.w = w
        self.closed = 0
        self.buf = b""
        self.frames = 0

    # writer
    def get_extra_info(self, n, default=None):
        return self

    def setsockopt(self, *a):
        if self.w.fault == "sockopt":
            raise OSError("setsockopt")

    def write(self, data):
        self.w.c.check(not self.closed, "no write to a closed connection")
        if self.w.fault == "write":
            raise OSError("write")
        self.frames += 1
        req = json.loads(dec(data[4:]))
        reply = enc(json.dumps({"echo": req["id"]}))
        if self.w.fault == "badjson":
            reply = enc("{not json")
        self.buf += reply

    async def drain(self):
        await asyncio.sleep(0)
        if self.w.fault == "drain":
            raise OSError("drain")

    async def readexactly(self, n):
        await asyncio.sleep(0)
        f = self.w.fault
        stage = "hdr" if n == 4 else "body"
        if f == f"{stage}-hang":
            await asyncio.get_running_loop().create_future()
        if f == f"{stage}-eof":
            raise asyncio.IncompleteReadError(b"", n)
        if f == f"{stage}-oserror":
            raise ConnectionResetError("reset")
        if f == f"{stage}-cancel":
            raise asyncio.CancelledError
        out, self.buf = self.buf[:n], self.buf[n:]
        return out

    def close(self):
        self.closed += 1

    async def wait_closed(self):
        if self.w.wc_fails:
            raise OSError("already gone")

    is_closing = lambda self: bool(self.closed)  # noqa: E731


def history(c, k, first=None):
    from kasa import Credentials, DeviceConfig, KasaException  # noqa: F401
    from kasa.exceptions import AuthenticationError, TimeoutError, _ConnectionError, _RetryableError
    from kasa.transports.xortransport import XorTransport

    w = World(c)
    c.patch(asyncio, "open_connection", w.open)
    timeout = 5
    t = XorTransport(config=DeviceConfig("127.0.0.1", timeout=timeout))

    async def go():
        loop = asyncio.get_running_loop()
        live = None  # the connection the next send may reuse
        for i in range(k):
            w.fault = FAULTS[first] if (i == 0 and first is not None) else c.choice(f"fault{i}", FAULTS)
            w.wc_fails = c.bool(f"wc{i}")
            if w.fault == "connect-oserror":
                w.errno = c.int(f"errno{i}", 1, 133)
            n0 = len(w.conns)
            t0 = loop.time()
            o = await acatch(t.send(json.dumps({"id": i})))
            f = w.fault
            opened = len(w.conns) - n0
            if live is not None:
                if f in CONNECT:
                    f = "ok"  # already connected: no connect step to fail
                c.check(opened == 0, "an idle connection is reused")
                c.reach("reuse")
            elif i > 0:
                c.reach("reconnect")
            c.check(opened <= 1, "one send opens at most one connection")
            if f == "ok":
                c.check(o.ok and o.value == {"echo": i}, "the caller gets the reply to its own request", lambda: repr(o))
                conn = w.conns[-1]
                c.check(not conn.closed, "a healthy connection stays open")
                live = conn
                c.reach("ok")
                continue
            live = None
            c.check(not o.ok, "a failed exchange is never reported as success", lambda: (f, repr(o)))
            c.check(all(x.closed for x in w.conns), "a failed connection is closed", lambda: f)
            if f.endswith("cancel"):
                c.check(o.raised(asyncio.CancelledError), "cancellation propagates", lambda: repr(o))
                c.reach("cancelled")
                continue
            c.check(o.raised(KasaException), "failures are library exceptions", lambda: repr(o))
            c.check(not o.raised(AuthenticationError, _ConnectionError), "not an authentication failure")
            retry = o.raised(_RetryableError)
            tmo = o.raised(TimeoutError)
            if f.endswith("hang"):
                c.check(tmo and not retry, "a stalled peer is a timeout", lambda: repr(o))
                c.check(loop.time() - t0 <= timeout + 0.01, "the configured timeout bounds the wait")
                c.reach("timeout")
            elif f == "connect-refused":
                c.check(not tmo and not retry, "refused is not retryable", lambda: repr(o))
                c.reach("refused")
            elif f == "connect-oserror":
                nr = Or(*[w.errno == e for e in NO_RETRY])
                c.check(not tmo, "an os error is not a timeout")
                c.check(Not(nr) if retry else nr, "host down/unreachable/refused is final, other os errors are retryable", lambda: repr(o))
                c.reach("retryable" if retry else "refused")
            else:
                c.check(retry and not tmo, "other failures are retryable", lambda: (f, repr(o)))
                c.reach("retryable")
        c.check(sum(not x.closed for x in w.conns) <= 1, "no connection is leaked")
        w.fault, w.wc_fails = "ok", c.bool("wc_close")
        o = await acatch(t.close())
        c.check(o.ok, "close never fails", lambda: repr(o))
        c.check(all(x.closed for x in w.conns), "close() leaves no connection open")
        await t.close()
        await t.reset()
        o = await acatch(t.send(json.dumps({"id": 99})))
        c.check(o.ok and o.value == {"echo": 99}, "a closed transport reconnects on the next send", lambda: repr(o))
        c.reach("close")

    c.run(go())


def scenarios(tier):
    k = 2 if tier == "quick" else 3
    return [(f"history-{FAULTS[f]}", history, {"k": k, "first": f}) for f in range(len(FAULTS))]
