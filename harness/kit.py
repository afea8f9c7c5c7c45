"""Building blocks shared by the checks: values, recorders, probe sources."""

from __future__ import annotations

import asyncio
import os
import re
import zlib

from . import boot  # noqa: F401
from hypothesis import strategies as st
from .vloop import run_virtual
from expression.system import ObjectDisposedException, OperationCanceledError

from aioreactive import AsyncAnonymousObserver, AsyncDisposable, AsyncObservable, AsyncObserver


class Violation(AssertionError):
    """The property does not hold on this case."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


FOUND = set()  # listed findings met in this process


def listed_findings():
    """{(property, key): text} of the lines `known: property=<id> key=<key> <text>` in KNOWN_FINDINGS.txt."""
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.txt")
    out = {}
    try:
        with open(path) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m:
                    out[m.group(1), m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return out


def known_or_violation(prop, key, msg):
    """This exact failure is a listed finding, or else a violation."""
    if (prop, key) not in listed_findings():
        raise Violation(msg)
    FOUND.add((prop, key))


class Boom(Exception):
    """Errors injected by the harness; compared by identity.

    Boom(tag) makes an instance of the subclass chosen for the present case, so that the same failures are also
    injected as other standard exceptions (of which library code might think it raised them itself).
    """

    kind = 0

    def __new__(cls, tag):
        cls = BOOMS[Boom.kind] if cls is Boom else cls
        base = next(b for b in cls.__mro__ if not issubclass(b, Boom))
        return base.__new__(cls, tag)

    def __init__(self, tag):
        Exception.__init__(self, tag)
        self.tag = tag

    def __repr__(self):
        return f"{type(self).__name__}({self.tag!r})"


def _falsy():
    return type("BoomFalsy", (Boom,), {"__bool__": lambda self: False})


def _equal():
    return type("BoomEqual", (Boom,), {"__eq__": lambda self, other: isinstance(other, BaseException),
                                       "__hash__": lambda self: 7})


BOOMS = [Boom] + [type("Boom" + b.__name__, (Boom, b), {}) for b in (
    KeyError, IndexError, TypeError, RuntimeError, AttributeError, TimeoutError, ObjectDisposedException,
    asyncio.InvalidStateError, asyncio.QueueEmpty, OperationCanceledError, NotImplementedError, OSError)] + [_falsy(), _equal()]


class BoomStop(Boom, StopIteration):
    """Cannot leave a coroutine as itself."""


# ---------------------------------------------------------------- values
class Thing:
    """A value with identity equality only."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Thing({self.n})"


class Hostile:
    """A value that cannot be compared, hashed, tested or converted."""

    exc = Boom("hostile")

    def no(self, *_):
        raise self.exc

    __eq__ = __ne__ = __bool__ = __hash__ = __str__ = __len__ = __iter__ = no

    def __repr__(self):
        return "Hostile"


_POOL = [
    1, 2, 3, None, 0, False, "", "a", True, 1.0, -1, (), [], {}, (1, 2), "b",
    10**20, 0.0, Boom("as-value"), Thing(1), float("nan"), b"", frozenset(), [0], StopIteration("v"), Ellipsis, Hostile(),
]
POOL_SIZE = len(_POOL)


def val(i):
    """Value number i: small indices are odd pool members, the rest plain ints."""
    return _POOL[i] if 0 <= i < POOL_SIZE else i


@st.composite
def many(draw, lo, hi, big, odds=24):
    """A count in lo..hi, now and then a much larger one."""
    return draw(st.integers(hi, big)) if draw(st.integers(0, odds - 1)) == odds - 1 else draw(st.integers(lo, hi))


def scale_st():
    """Now and then everything happens much faster or slower: seconds, minutes, hours or days."""
    return st.sampled_from([1] * 12 + [1 / 64, 61.25, 3600.5, 90000.25])


def scaled(x, f):
    """Times a factor; gaps <= 0 (loop turns), None and text stay."""
    if isinstance(x, (list, tuple)):
        return [scaled(y, f) for y in x]
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        return x
    return x * f if x > 0 and f != 1 else x


def vals(idx):
    return [val(i) for i in idx]


def same(a, b):
    """Type-sensitive structural equality, identity at the leaves where possible."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, BaseException):
        return False
    if isinstance(a, float) and a != a and b != b:
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


def same_seq(xs, ys):
    return len(xs) == len(ys) and all(same(x, y) for x, y in zip(xs, ys))


def bit(salt, x):
    """Deterministic pseudo-random predicate on a value."""
    return bool(zlib.crc32(f"{salt}|{x!r}".encode()) & 4)


def num(salt, x, n):
    return zlib.crc32(f"{salt}#{x!r}".encode()) % n


# ---------------------------------------------------------------- traces
# a trace is (values, term) with term None | ("C",) | ("E", exc)
def fmt_note(n):
    return f"{n[0]}({n[1]!r})" if len(n) > 1 else n[0]


def fmt_notes(ns):
    s = [fmt_note(n) for n in ns]
    if len(s) > 24:
        s = s[:12] + [f"...{len(s) - 24} more..."] + s[-12:]
    return "[" + ", ".join(s) + "]"


def trace_notes(values, term):
    out = [("N", v) for v in values]
    if term is not None:
        out.append(term)
    return out


def same_notes(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return False
        if x[0] == "N" and not same(x[1], y[1]):
            return False
        if x[0] == "E" and x[1] is not y[1]:
            return False
    return True


def check_grammar(notes, who="observer"):
    for i, n in enumerate(notes):
        if n[0] in "CE" and i != len(notes) - 1:
            raise Violation(f"{who}: notification {fmt_note(notes[i + 1])} after terminal: {fmt_notes(notes)}")


# ---------------------------------------------------------------- observers
class Rec(AsyncObserver):
    """Recording observer; optionally slow, optionally raising, with hooks."""

    def __init__(self, delays=None, raise_at=None, raise_exc=None, hook=None, raise_term=None):
        self.events = []  # (time, note)
        self.calls = []  # [begin, end] intervals in call order
        self.active = 0
        self.overlap = None
        self.delays = delays or []
        self.raise_at = raise_at
        self.raise_exc = raise_exc
        self.raise_term = raise_term
        self.hook = hook
        self.finished = 0
        self.cancelled = 0
        self.order = None  # a list common to several observers

    @property
    def notes(self):
        return [n for _, n in self.events]

    @property
    def values(self):
        return [n[1] for _, n in self.events if n[0] == "N"]

    @property
    def term(self):
        for _, n in self.events:
            if n[0] != "N":
                return n
        return None

    def check(self, who="observer"):
        check_grammar(self.notes, who)

    async def _on(self, note):
        loop = asyncio.get_running_loop()
        k = len(self.events)
        self.events.append((loop.time(), note))
        if self.order is not None:
            self.order.append(self)
        if self.active and self.overlap is None:
            self.overlap = (k, note)
        self.active += 1
        try:
            if self.delays:
                d = self.delays[k % len(self.delays)]
                if d:
                    await pause(d)
            if self.hook is not None:
                await self.hook(k, note)
            if self.raise_at is not None and k == self.raise_at and note[0] == "N":
                raise self.raise_exc
            if self.raise_term is not None and note[0] != "N":
                raise self.raise_term
            self.finished += 1
        except asyncio.CancelledError:
            self.cancelled += 1
            raise
        finally:
            self.active -= 1

    async def asend(self, value):
        await self._on(("N", value))

    async def athrow(self, error):
        await self._on(("E", error))

    async def aclose(self):
        await self._on(("C",))


async def pause(d):
    """d > 0: virtual seconds; d < 0: -d loop turns; 0: nothing."""
    if d > 0:
        await asyncio.sleep(d)
    else:
        for _ in range(-d):
            await asyncio.sleep(0)


# ---------------------------------------------------------------- sources
class ProbeSub:
    def __init__(self, src, observer, t):
        self.src = src
        self.observer = observer
        self.t = t
        self.disposed = False
        self.disposed_at = None
        self.dispose_calls = 0
        self.ended = False
        self.task = None
        self.sent = 0

    @property
    def attached(self):
        return not self.disposed and not self.ended


class _ProbeDisposable(AsyncDisposable):
    def __init__(self, sub):
        self.sub = sub

    async def dispose_async(self):
        sub = self.sub
        sub.dispose_calls += 1
        if not sub.disposed:
            sub.disposed = True
            sub.disposed_at = asyncio.get_running_loop().time()
        if sub.src.dispose_delay:
            await pause(sub.src.dispose_delay)


class Probe(AsyncObservable):
    """Cold source scripted by the harness.

    script: list of (gap, kind, payload): wait `gap`, then emit.  kind N/E/C.
    Every emission awaits the observer (a well-behaved producer); it stops
    once disposed.  An exception from the observer is turned into athrow and
    ends the emission, like the library's own pull-driven sources do.
    mode 'task' emits from a background task, 'sync' inside subscribe_async.
    """

    def __init__(self, script, mode="task", stop_on_dispose=True, obey_grammar=True, dispose_delay=0,
                 subscribe_delay=0, subscribe_exc=None):
        self.script = script
        self.mode = mode
        self.subs = []
        self.stop_on_dispose = stop_on_dispose
        self.obey = obey_grammar
        self.dispose_delay = dispose_delay
        self.subscribe_delay = subscribe_delay
        self.subscribe_exc = subscribe_exc
        self.log = []

    async def subscribe_async(self, send=None, throw=None, close=None):
        obv = send if isinstance(send, AsyncObserver) else AsyncAnonymousObserver(send, throw, close)
        loop = asyncio.get_running_loop()
        sub = ProbeSub(self, obv, loop.time())
        self.subs.append(sub)
        sub.ended = self.subscribe_exc is not None
        if self.subscribe_delay:
            try:
                await pause(self.subscribe_delay)
            except asyncio.CancelledError:
                sub.ended = True
                raise
        if self.subscribe_exc is not None:
            raise self.subscribe_exc
        if self.mode == "sync":
            await self._emit(sub)
        else:
            sub.task = loop.create_task(self._emit(sub))
        return _ProbeDisposable(sub)

    async def _emit(self, sub):
        for gap, kind, payload in self.script:
            if gap:
                await pause(gap)
            if sub.disposed and self.stop_on_dispose:
                return
            sub.sent += 1
            try:
                if kind == "N":
                    await sub.observer.asend(payload)
                elif kind == "E":
                    if self.obey:
                        sub.ended = True
                    await sub.observer.athrow(payload)
                else:
                    if self.obey:
                        sub.ended = True
                    await sub.observer.aclose()
            except Exception as ex:
                if kind != "N":
                    return
                sub.ended = True
                if not (sub.disposed and self.stop_on_dispose):
                    await sub.observer.athrow(ex)
                return
            if kind != "N" and self.obey:
                return

    @property
    def attached(self):
        return [s for s in self.subs if s.attached]


class Hot(AsyncObservable):
    """Hot source with plain fan-out, independent of the library's subjects."""

    def __init__(self):
        self.subs = []

    async def subscribe_async(self, send=None, throw=None, close=None):
        obv = send if isinstance(send, AsyncObserver) else AsyncAnonymousObserver(send, throw, close)
        sub = ProbeSub(self, obv, asyncio.get_running_loop().time())
        self.subs.append(sub)
        return _ProbeDisposable(sub)

    dispose_delay = 0

    async def emit(self, note):
        for sub in list(self.subs):
            if sub.disposed or sub.ended:
                continue
            sub.sent += 1
            if note[0] == "N":
                await sub.observer.asend(note[1])
            elif note[0] == "E":
                sub.ended = True
                await sub.observer.athrow(note[1])
            else:
                sub.ended = True
                await sub.observer.aclose()

    @property
    def attached(self):
        return [s for s in self.subs if s.attached]


def settle():
    return asyncio.get_running_loop().settle()


async def drain(dt=0.0):
    """Let virtual time pass by dt and everything runnable run."""
    if dt:
        await asyncio.sleep(dt)
    await settle()


def run_case(main, *, horizon=float("inf"), cpu_limit=20.0, max_steps=400_000, what="run"):
    """Run main to quiescence; anything but a normal return is a violation.

    An exception that escapes from the code under test into the caller, a
    call that never returns although nothing is left to wait for, and a
    library loop that never gives up control are all observable failures.
    """
    try:
        loop, status, value = run_virtual(main, horizon=horizon, cpu_limit=cpu_limit, max_steps=max_steps)
    except (Violation, KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as ex:
        raise Violation(f"{what}: unexpected {type(ex).__name__}: {ex}") from ex
    if status != "done":
        raise Violation(f"{what}: {status} (an awaited call never finished)")
    return loop, value
