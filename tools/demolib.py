"""Helpers for the demonstrations (no network: every transport is a stand-in)."""

import asyncio
import json
import sys

from kasa import Credentials, DeviceConfig
from kasa.transports.basetransport import BaseTransport


def fail(msg):
    print("BROKEN:", msg)
    sys.exit(1)


def expect(cond, msg):
    if not cond:
        fail(msg)


def run(coro):
    return asyncio.run(asyncio.wait_for(coro, 60))


class Fake(BaseTransport):
    """handler(request dict) -> response dict, or an exception to raise."""

    def __init__(self, handler, config=None):
        super().__init__(config=config or DeviceConfig("127.0.0.1", credentials=Credentials("u", "p")))
        self.handler = handler
        self.sent = []
        self.resets = 0
        self.closes = 0

    @property
    def default_port(self):
        return 80

    @property
    def credentials_hash(self):
        return "x"

    async def send(self, request):
        req = json.loads(request)
        self.sent.append(req)
        r = self.handler(req)
        if asyncio.iscoroutine(r):
            r = await r
        if isinstance(r, BaseException):
            raise r
        return r

    async def close(self):
        self.closes += 1

    async def reset(self):
        self.resets += 1


def smart(handler, config=None):
    from kasa.protocols import SmartProtocol

    return SmartProtocol(transport=Fake(handler, config))


def multi(one):
    """Device answering single and multiple requests with one(method, params) -> result or {'error_code': n}."""

    def h(req):
        if req["method"] == "multipleRequest":
            out = []
            for r in req["params"]["requests"]:
                a = one(r["method"], r.get("params"))
                a = dict(a) if "error_code" in a and len(a) <= 2 else {"result": a, "error_code": 0}
                out.append({"method": r["method"], **a})
            return {"result": {"responses": out}, "error_code": 0}
        a = one(req["method"], req.get("params"))
        return dict(a) if "error_code" in a and len(a) <= 2 else {"result": a, "error_code": 0}

    return h


def fixture(rel):
    """A recorded device of the repository's test fixtures."""
    with open("tests/fixtures/" + rel) as fh:
        return json.load(fh)


class NoSleep:
    """Make asyncio.sleep instant and record the delays."""

    def __init__(self):
        self.delays = []

    def __enter__(self):
        self.real = asyncio.sleep

        async def fast(d, *a):
            self.delays.append(d)
            await self.real(0)

        asyncio.sleep = fast
        return self

    def __exit__(self, *a):
        asyncio.sleep = self.real


async def device(name, edit=None, protocol=None):
    """A device of the class and data of a recorded fixture; its requests are kept in dev.sent."""
    import copy

    import pytest

    pytest.fixtures_missing_methods = {}
    from tests.device_fixtures import get_device_for_fixture
    from tests.fixtureinfo import FIXTURE_DATA

    info = [x for x in FIXTURE_DATA if x.name == name and (protocol is None or x.protocol == protocol)][0]
    info = info._replace(data=copy.deepcopy(info.data))
    if edit:
        edit(info.data)
    dev = await get_device_for_fixture(info, update_after_init=False)
    sent = []
    inner = dev.protocol.query

    async def query(request, retry_count=3):
        sent.append(copy.deepcopy(request))
        return await inner(request, retry_count)

    dev.protocol.query = query
    await dev.update()
    dev.sent = sent
    sent.clear()
    return dev
