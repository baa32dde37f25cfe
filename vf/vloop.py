"""Event loop with a virtual clock: waiting for a timer advances the clock instead of sleeping."""
import asyncio
import selectors


class _Selector(selectors.SelectSelector):
    loop = None

    def select(self, timeout=None):
        ready = super().select(0)
        if ready:
            return ready
        if timeout is None:
            raise RuntimeError("virtual loop: nothing left to wait for (deadlock)")
        if timeout > 0:
            self.loop.now += timeout
        return []


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.now = 1000.0
        sel = _Selector()
        sel.loop = self
        super().__init__(sel)

    def time(self):
        return self.now


def run(coro):
    loop = VirtualLoop()
    try:
        asyncio.set_event_loop(loop)
        return loop.run_until_complete(coro)
    finally:
        for t in asyncio.all_tasks(loop):
            t.cancel()
        asyncio.set_event_loop(None)
        loop.close()
