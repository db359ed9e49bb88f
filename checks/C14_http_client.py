"""HTTP exchange: outcome classification, pacing after OS errors, session ownership."""

from __future__ import annotations

import asyncio
import json as _json
import time

import aiohttp

from engine.ctx import Not, Or, acatch, sym_eq
from httpsim import FakeSession, Resp

BOUNDS = (
    "sequences of K posts (quick K=2, thorough K=3) on one client; for each the solver picks the outcome (server "
    "disconnect, OS error, server/connect/read timeouts, total timeout, other client errors, any other exception, while "
    "sending or while reading; or a reply with any status 100..599, JSON or binary or undecodable body), and the time that "
    "passes before it (any multiple of 1/16 s up to 1 s)"
)
OUTSIDE = "aiohttp itself"
WITNESSES = ["ok", "connection-error", "timeout", "other-error", "delayed", "not-delayed", "status"]
QUICK_S, THOROUGH_S = 60, 600


class Odd(Exception):
    pass


def excs():
    return {
        "disconnected": (aiohttp.ServerDisconnectedError(), "conn"),
        "oserror": (aiohttp.ClientOSError(), "conn"),
        "connector": (aiohttp.ClientConnectorError(None, OSError(111, "x")) if False else aiohttp.ClientOSError(104, "reset"), "conn"),
        "servertimeout": (aiohttp.ServerTimeoutError(), "timeout"),
        "connecttimeout": (aiohttp.ConnectionTimeoutError(), "timeout"),
        "sockettimeout": (aiohttp.SocketTimeoutError(), "timeout"),
        "totaltimeout": (TimeoutError(), "timeout"),
        "payload": (aiohttp.ClientPayloadError(), "other"),
        "invalidurl": (aiohttp.InvalidURL("x"), "other"),
        "odd": (Odd(), "other"),
        "value": (ValueError("v"), "other"),
    }


OUTCOMES = ["ok", "badjson", "disconnected", "oserror", "connector", "servertimeout", "connecttimeout", "sockettimeout", "totaltimeout", "payload", "invalidurl", "odd", "value"]


def sequence(c, k, first):
    from kasa import DeviceConfig, KasaException
    from kasa.exceptions import AuthenticationError, TimeoutError as KTimeout, _ConnectionError, _RetryableError
    from kasa.httpclient import HttpClient
    from yarl import URL

    E = excs()
    cur = {}
    clock = {"t": 100.0}
    sleeps = []
    c.patch(time, "monotonic", lambda: clock["t"])

    real_sleep = asyncio.sleep

    async def fake_sleep(d, *a):
        if type(d) is int and d == 0:
            await real_sleep(0)
            return
        sleeps.append(d)
        clock["t"] = clock["t"] + d

    def handler(req):
        cur["at"] = clock["t"]
        o = cur["out"]
        if o in E and not cur["reading"]:
            raise E[o][0]
        if o in E:
            return Resp(200, b"", E[o][0])
        if o == "badjson":
            return Resp(cur["status"], b"\xff{nope")
        return Resp(cur["status"], cur["body"])

    s = FakeSession(handler)
    cfg = DeviceConfig("127.0.0.1", timeout=7, http_client=s)
    url = URL("http://127.0.0.1/app")

    async def go():
        h = HttpClient(cfg)
        paced = False  # an OS error has been seen
        last_end = None
        for i in range(k):
            out = OUTCOMES[first] if i == 0 else c.choice(f"out{i}", OUTCOMES)
            form = c.choice(f"json{i}", ["raw", "json", "json text"])
            cur.update(out=out, reading=bool(c.bool(f"reading{i}")) if out in E else False)
            is_json = form != "raw"
            body = {"a": i} if form == "json" else '{"a": 1}'
            cur["status"] = c.int(f"status{i}", 100, 599) if out in ("ok", "badjson") else 200
            cur["body"] = _json.dumps({"n": i}).encode() if is_json else b"\x00\x01raw"
            gap = c.real(f"gap{i}", 0, 1, 16)
            clock["t"] = clock["t"] + gap
            s.jar.cookies["stale"] = "1"
            n0 = len(s.reqs)
            if is_json:
                o = await acatch(h.post(url, json=body))
            else:
                o = await acatch(h.post(url, data=b"d", params={"seq": i}, cookies_dict={"k": "v"}))
            c.check(len(s.reqs) == n0 + 1, "one post is one http request", lambda: repr(o))
            r = s.reqs[-1]
            c.check("stale" not in s.jar.cookies, "cookies of earlier exchanges are not replayed implicitly")
            c.check(r.timeout.total == 7, "the configured timeout is used")
            if is_json:
                c.check((r.json, r.data) == ((body, None) if form == "json" else (None, body)), "the json body is sent")
            else:
                c.check(r.data == b"d" and r.params == {"seq": i} and r.cookies == {"k": "v"}, "body, parameters and cookies are sent")
            if paced:
                c.check(cur["at"] - last_end >= 0.25, "after an OS error requests are at least a quarter second apart", lambda: (i, sleeps))
                c.reach("delayed" if sleeps else "not-delayed")
            else:
                c.check(not sleeps, "no delay before any OS error", lambda: sleeps)
                c.reach("not-delayed")
            last_end = clock["t"]
            if out in ("ok", "badjson"):
                st = cur["status"]
                if out == "badjson" and is_json:
                    if o.ok:
                        c.check(Not(st == 200), "an undecodable success body is an error", lambda: repr(o))
                        c.check(sym_eq(o.value[0], st), "status is returned")
                        c.check(o.value[1] == b"\xff{nope", "the raw body of a failure is returned")
                    else:
                        c.check(st == 200, "failures with odd bodies still report their status", lambda: repr(o))
                        c.check(o.raised(KasaException) and not o.raised(_ConnectionError, KTimeout, _RetryableError), "undecodable body", lambda: repr(o))
                    continue
                c.check(o.ok, "a reply is returned", lambda: repr(o))
                if not o.ok:
                    return
                c.check(sym_eq(o.value[0], st), "the http status is returned")
                want = {"n": i} if is_json else (cur["body"] if out == "ok" else b"\xff{nope")
                c.check(o.value[1] == want, "the body is returned, decoded when json was asked", lambda: repr(o))
                c.check(s.resps[-1].exited, "the response is released")
                c.reach("ok")
                c.reach("status")
                continue
            kind = E[out][1]
            c.check(o.raised(KasaException), "every failure is a library exception", lambda: repr(o))
            c.check(not o.raised(AuthenticationError, _RetryableError), "network failures are not device errors", lambda: repr(o))
            if kind == "conn":
                c.check(o.raised(_ConnectionError), "lost connections are connection errors", lambda: (out, repr(o)))
                paced = True
                c.reach("connection-error")
            elif kind == "timeout":
                c.check(o.raised(KTimeout), "timeouts are timeout errors", lambda: (out, repr(o)))
                c.reach("timeout")
            else:
                c.check(not o.raised(_ConnectionError, KTimeout), "other failures are plain errors", lambda: (out, repr(o)))
                c.reach("other-error")
            sleeps_seen = list(sleeps)
            del sleeps_seen
            if paced and kind == "conn":
                pass
            sleeps.clear()
        sleeps.clear()

    async def main():
        with_patch = c.patch(asyncio, "sleep", fake_sleep)  # noqa: F841
        await go()

    c.run(main())


def ownership(c):
    """A caller's session is used and never closed; the library's own is."""
    from kasa import DeviceConfig
    from kasa.httpclient import HttpClient
    from yarl import URL

    created = []
    own = c.bool("own")
    posts = c.pick("posts", 3)
    closes = c.pick("closes", 3)
    reuse = c.bool("reuse")

    def handler(req):
        return 200, b"x"

    class Auto(FakeSession):
        def __init__(self, *a, **k):
            super().__init__(handler)
            created.append(self)

    mine = FakeSession(handler)
    c.patch(aiohttp, "ClientSession", Auto) if not own else None
    cfg = DeviceConfig("127.0.0.1", http_client=mine if own else None)

    async def go():
        h = HttpClient(cfg)
        for _ in range(posts):
            await h.post(URL("http://127.0.0.1/"), data=b"q")
        for _ in range(closes):
            await h.close()
        if reuse:
            o = await acatch(h.post(URL("http://127.0.0.1/"), data=b"q"))
            c.check(o.ok, "a closed client can be used again", lambda: repr(o))

    c.run(go())
    n = posts + (1 if reuse else 0)
    if own:
        c.check(mine.closed_count == 0, "the caller's session is never closed")
        c.check(len(mine.reqs) == n and not created, "the caller's session is used")
    else:
        c.check(sum(len(x.reqs) for x in created) == n, "requests go through the library's session")
        if posts == 0 and not reuse:
            c.check(not created, "no session is made before it is needed")
        c.check(all(x.closed_count == 1 for x in created[:1]) if (posts and closes) else True, "close() closes the library's session once")
        open_ = [x for x in created if not x.closed_count]
        c.check(len(open_) <= 1, "at most one session is open")
        if closes and not reuse:
            c.check(not open_, "close() leaves no session open")


def scenarios(tier):
    k = 2 if tier == "quick" else 3
    return [(f"seq-{OUTCOMES[f]}", sequence, {"k": k, "first": f}) for f in range(len(OUTCOMES))] + [("ownership", ownership)]
