"""A stand-in for aiohttp.ClientSession, driven by a handler."""

from __future__ import annotations

import asyncio

import aiohttp

from engine.hook import boxed
from engine.sym import has_sym


class Cookie:
    def __init__(self, value):
        self.value = value


class Jar:
    def __init__(self):
        self.cookies = {}
        self.clears = 0

    def clear(self, *a):
        self.cookies.clear()
        self.clears += 1

    def filter_cookies(self, url=None):
        return {k: Cookie(v) for k, v in self.cookies.items()}


class Resp:
    def __init__(self, status, body, read_exc=None):
        self.status = status
        self.body = body
        self.read_exc = read_exc
        self.exited = False

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.exited = True

    async def read(self):
        if self.read_exc is not None:
            raise self.read_exc
        return self.body


def body(o):
    """Response bytes of a JSON-like document, or the bytes themselves."""
    if isinstance(o, (dict, list)):
        if has_sym(o, 12):
            return boxed(o)
        import json

        return json.dumps(o).encode()
    return o


class Req:
    """What reached the device."""

    def __init__(self, url, params, data, json, cookies, headers, timeout):
        self.url, self.params, self.data, self.json = url, params, data, json
        self.cookies, self.headers, self.timeout = cookies, headers, timeout
        self.path = url.path


class FakeSession(aiohttp.ClientSession):
    """handler(req) -> (status, body) | (status, body, cookies) or raises."""

    def __init__(self, handler):
        # deliberately does not call super().__init__: no sockets
        object.__setattr__(self, "jar", Jar())
        object.__setattr__(self, "handler", handler)
        object.__setattr__(self, "reqs", [])
        object.__setattr__(self, "closed_count", 0)
        object.__setattr__(self, "resps", [])
        object.__setattr__(self, "inflight", 0)

    def __setattr__(self, k, v):
        object.__setattr__(self, k, v)

    @property
    def cookie_jar(self):
        return self.jar

    @property
    def closed(self):
        return True

    def __del__(self):
        pass

    async def close(self):
        self.closed_count += 1

    async def post(self, url, *, params=None, data=None, json=None, timeout=None, cookies=None, headers=None, ssl=None, **kw):
        if data is not None and hasattr(data, "__anext__"):
            chunks = [x async for x in data]
            data = chunks[0] if len(chunks) == 1 else b"".join(chunks)
        req = Req(url, params, data, json, cookies, headers, timeout)
        self.reqs.append(req)
        self.inflight += 1
        try:
            await asyncio.sleep(0)
            r = self.handler(req)
            if asyncio.iscoroutine(r):
                r = await r
        finally:
            self.inflight -= 1
        if isinstance(r, Resp):
            resp = r
        else:
            status, bd, *rest = r
            if rest:
                self.jar.cookies.update(rest[0])
            resp = Resp(status, body(bd))
        self.resps.append(resp)
        return resp
