"""Deterministic asyncio loop with virtual time and a schedule hook."""

from __future__ import annotations

import asyncio
import collections


class Hang(Exception):
    """Nothing is runnable and no timer is pending."""


class _Sel:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        if timeout is None:
            raise Hang("event loop has nothing left to run")
        if timeout > 0:
            self.loop._vt += timeout
        return []

    def close(self):
        pass


class VirtualLoop(asyncio.BaseEventLoop):
    def __init__(self, chooser=None, max_steps=20000):
        super().__init__()
        self._vt = 1000.0
        self._selector = _Sel(self)
        self._clock_resolution = 1e-6
        self.chooser = chooser
        self.steps = 0
        self.max_steps = max_steps
        self.unhandled = []
        self.set_exception_handler(lambda loop, c: self.unhandled.append(c))

    def time(self):
        return self._vt

    def _process_events(self, ev):
        pass

    def _write_to_self(self):
        pass

    def _run_once(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Hang("step bound exceeded")
        if self.chooser is not None and len(self._ready) > 1:
            i = self.chooser(len(self._ready))
            r = list(self._ready)
            h = r.pop(i)
            self._ready = collections.deque([h])
            super()._run_once()
            self._ready = collections.deque(r + list(self._ready))
        else:
            super()._run_once()

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        try:
            fut.set_result(func(*args))
        except Exception as ex:
            fut.set_exception(ex)
        return fut

    async def create_datagram_endpoint(self, factory, **kw):
        raise OSError("no network in this harness")

    async def shutdown_default_executor(self, timeout=None):
        return None


def run(coro, chooser=None, loop=None):
    loop = loop or VirtualLoop(chooser)
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(coro)
    finally:
        try:
            loop.chooser = None
            _cancel_all(loop)
        finally:
            asyncio.set_event_loop(None)
            loop.close()


def _cancel_all(loop):
    todo = [t for t in asyncio.all_tasks(loop) if not t.done()]
    for t in todo:
        t.cancel()
    if todo:
        loop.max_steps = loop.steps + 2000
        try:
            loop.run_until_complete(asyncio.gather(*todo, return_exceptions=True))
        except Exception:
            pass
