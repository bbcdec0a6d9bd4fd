"""
An asyncio event loop in virtual time. It never blocks: when nothing is ready it either jumps to the
next timer (run) or stops and lets the driver decide what happens next (settle).
"""
import asyncio
import selectors

from .boot import CLOCK


class _Selector(selectors.SelectSelector):
    loop = None

    def select(self, timeout=None):
        loop = self.loop
        if timeout is None:
            loop.deadlocked = True
            loop.stop()
            return []
        if timeout > 0:
            if loop.hold_time:
                loop.stop()
                return []
            target = loop._scheduled[0]._when if loop._scheduled else loop.time() + timeout
            us = int(round(target * 1e6))
            CLOCK.us = max(CLOCK.us + 0, us)
            while loop.time() < target:
                CLOCK.us += 1
        return []


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        sel = _Selector()
        sel.loop = self
        self.deadlocked = False
        self.hold_time = False
        self.errors = []
        super().__init__(sel)
        self._clock_resolution = 1e-7
        self.set_exception_handler(lambda loop, ctx: loop.errors.append(ctx))

    def time(self):
        return CLOCK.us / 1e6

    # -- driver operations
    def settle(self, limit=20000):
        """Run everything that is ready, without letting time pass."""
        n = 0
        while self._ready:
            self.call_soon(self.stop)
            self.run_forever()
            n += 1
            if n > limit:
                raise Livelock("no quiescence")

    def next_timer(self):
        self._drop_cancelled()
        return self._scheduled[0]._when if self._scheduled else None

    def _drop_cancelled(self):
        import heapq
        while self._scheduled and self._scheduled[0]._cancelled:
            h = heapq.heappop(self._scheduled)
            h._scheduled = False

    def run(self, coro):
        """Run one coroutine to completion; time jumps over idle periods."""
        task = self.create_task(coro)
        task.add_done_callback(lambda t: self.stop())
        self.deadlocked = False
        self.run_forever()
        if not task.done():
            task.cancel()
            self.settle()
            raise Deadlock("the coroutine can never complete")
        self.settle()
        return task.result()

    def run_for(self, seconds):
        """Let virtual time pass, firing timers in order."""
        async def _sleep():
            await asyncio.sleep(seconds)
        self.run(_sleep())

    def shutdown(self):
        try:
            for t in asyncio.all_tasks(self):
                t.cancel()
            self.settle()
        finally:
            try:
                self.close()
            except Exception:
                pass


class Deadlock(Exception):
    pass


class Livelock(Exception):
    pass


class World:
    """with World() as loop: ... – one hermetic execution."""
    def __init__(self, start=None):
        self.start = start

    def __enter__(self):
        from . import boot
        boot.reset_world(self.start)
        self.loop = VLoop()
        asyncio.set_event_loop(self.loop)
        return self.loop

    def __exit__(self, *exc):
        try:
            self.loop.shutdown()
        finally:
            asyncio.set_event_loop(None)
        return False
