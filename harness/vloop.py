"""Deterministic virtual-time event loop owned by the harness.

It is independent of the code under test (aioreactive ships a virtual loop of
its own, which is itself checked by C25).  All wall clocks a library could
reasonably read are patched so that they agree with the loop's virtual time
while such a loop is running; outside of a running loop they are the real ones.
"""

from __future__ import annotations

import asyncio
import datetime as _dt
import heapq
import itertools
import os
import signal
import sys
import time as _time

_REAL_DATETIME = _dt.datetime
_REAL = {n: getattr(_time, n) for n in ("time", "monotonic", "perf_counter")}
_REAL_NS = {n: getattr(_time, n) for n in ("time_ns", "monotonic_ns", "perf_counter_ns")}
_STDLIB = os.path.dirname(os.path.dirname(asyncio.__file__))
_EPOCH = 1_700_000_000.0  # virtual wall clock at loop time 0


def _vloop():
    loop = asyncio._get_running_loop()
    return loop if isinstance(loop, VLoop) else None


class _DTMeta(type(_REAL_DATETIME)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _REAL_DATETIME)


class VDateTime(_REAL_DATETIME, metaclass=_DTMeta):
    @classmethod
    def now(cls, tz=None):
        lp = _vloop()
        if lp is None:
            return _REAL_DATETIME.now(tz)
        return _REAL_DATETIME.fromtimestamp(_EPOCH + lp._vtime, tz)

    @classmethod
    def utcnow(cls):
        lp = _vloop()
        if lp is None:
            return _REAL_DATETIME.utcnow()
        return _REAL_DATETIME.fromtimestamp(_EPOCH + lp._vtime, _dt.timezone.utc).replace(tzinfo=None)


def patch_clocks() -> None:
    """Call once, before importing the code under test."""

    def mk(name, base):
        real = _REAL[name]

        def fn():
            lp = _vloop()
            return real() if lp is None else base + lp._vtime

        fn.__name__ = name
        return fn

    def mk_ns(name, base):
        real = _REAL_NS[name]

        def fn():
            lp = _vloop()
            return real() if lp is None else int((base + lp._vtime) * 1_000_000_000)

        fn.__name__ = name
        return fn

    for n in _REAL:
        setattr(_time, n, mk(n, _EPOCH if n == "time" else 0.0))
    for n in _REAL_NS:
        setattr(_time, n, mk_ns(n, _EPOCH if n == "time_ns" else 0.0))
    _dt.datetime = VDateTime


def _asked_by_library() -> bool:
    f = sys._getframe(2)
    while f is not None:
        name = f.f_code.co_filename
        if not (name.startswith(_STDLIB) and "packages" not in name):
            return "/aioreactive/" in name
        f = f.f_back
    return False


class Hang(KeyboardInterrupt):
    """A callback never gave control back to the event loop."""


class VLoop(asyncio.BaseEventLoop):
    def __init__(self, batch: bool = True, max_steps: int = 400_000) -> None:
        super().__init__()
        self._vtime = 0.0
        self._heap: list = []
        self._seq = itertools.count()
        self._batch = batch
        self._max_steps = max_steps
        self._steps = 0
        self.horizon = float("inf")
        self.livelock = False
        self._drainers: list[asyncio.Future] = []
        self.pending_timers: list[float] = []
        self.errors: list = []
        self.track = False
        self._lib: list = []
        self.set_exception_handler(lambda _l, ctx: self.errors.append(ctx))

    # -- clock ---------------------------------------------------------
    def time(self) -> float:
        return self._vtime

    def call_at(self, when, callback, *args, context=None):
        self._check_closed()
        h = asyncio.TimerHandle(when, callback, args, self, context)
        heapq.heappush(self._heap, (when, next(self._seq), h))
        h._scheduled = True
        if self.track and _asked_by_library():
            self._lib.append(h)
        return h

    def library_timers(self):
        """Due times of the timers the code under test is waiting for (needs `track`)."""
        self._lib = [h for h in self._lib if h._scheduled and not h._cancelled]
        return sorted(h._when for h in self._lib)

    def _timer_handle_cancelled(self, handle):
        pass

    def _write_to_self(self):
        pass

    # -- stepping ------------------------------------------------------
    def _run_once(self):
        if not self._ready:
            while self._drainers:
                f = self._drainers.pop(0)
                if not f.done():
                    f.set_result(None)
                    break
        if not self._ready:
            while self._heap and self._heap[0][2]._cancelled:
                heapq.heappop(self._heap)
            if not self._heap or self._heap[0][0] > self.horizon:
                self._stopping = True
                return
            when = self._heap[0][0]
            if when > self._vtime:
                self._vtime = when
            first = True
            while self._heap and self._heap[0][0] <= self._vtime and (first or self._batch):
                _, _, h = heapq.heappop(self._heap)
                if h._cancelled:
                    continue
                h._scheduled = False
                self._ready.append(h)
                first = False
        for _ in range(len(self._ready)):
            h = self._ready.popleft()
            if h._cancelled:
                continue
            self._steps += 1
            h._run()
        if self._steps > self._max_steps:
            self.livelock = True
            self._stopping = True

    def settle(self) -> asyncio.Future:
        """Future that resolves once nothing else is runnable at this instant."""
        f = self.create_future()
        self._drainers.append(f)
        return f


def _clear_expression_registry() -> None:
    # expression.core.aiotools keeps a strong reference to every task that did
    # not finish normally; drop them so cases do not accumulate.
    try:
        from expression.core import aiotools

        reg = aiotools.__dict__.get("__running_tasks")
        if isinstance(reg, set):
            reg.clear()
    except Exception:
        pass


def run_virtual(main, *, horizon: float = float("inf"), batch: bool = True, cpu_limit: float = 20.0,
                max_steps: int = 400_000):
    """Run ``await main(loop)`` in a fresh virtual loop until quiescence.

    Returns (loop, status, value); status in done|stuck|livelock|hang.
    ``stuck``: every task is waiting for something that will never happen and
    main has not returned.  Exceptions of main propagate.
    """
    loop = VLoop(batch=batch, max_steps=max_steps)
    loop.horizon = horizon
    asyncio.set_event_loop(loop)

    def on_alarm(_s, _f):
        raise Hang()

    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, cpu_limit)
    status, value, err = "stuck", None, None
    task = None
    try:
        try:
            task = loop.create_task(main(loop))
            loop.run_forever()
            loop.pending_timers = sorted(w for w, _, h in loop._heap if not h._cancelled)
            if task.done():
                status = "done"
                if task.cancelled():
                    err = asyncio.CancelledError("main task was cancelled")
                else:
                    err = task.exception()
                    if err is None:
                        value = task.result()
            elif loop.livelock:
                status = "livelock"
        except Hang:
            status = "hang"
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    finally:
        signal.signal(signal.SIGPROF, old)
        _cleanup(loop)
    if isinstance(err, BaseException):
        raise err
    return loop, status, value


def _cleanup(loop: VLoop) -> None:
    try:
        loop.horizon = loop._vtime
        for _ in range(3):
            pend = [t for t in asyncio.all_tasks(loop) if not t.done()]
            if not pend:
                break
            for t in pend:
                t.cancel()
            loop._stopping = False
            loop.livelock = False
            loop._steps = 0
            loop._max_steps = 20_000
            signal.setitimer(signal.ITIMER_PROF, 10.0)
            old = signal.signal(signal.SIGPROF, _raise_hang)
            try:
                loop.run_forever()
            except BaseException:
                pass
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.signal(signal.SIGPROF, old)
        for t in asyncio.all_tasks(loop):
            t._log_destroy_pending = False
        loop._ready.clear()
        loop._heap.clear()
    except Exception:
        pass
    finally:
        _clear_expression_registry()
        try:
            loop.close()
        except Exception:
            pass
        asyncio.set_event_loop(None)


def _raise_hang(_s, _f):
    raise Hang()
