"""C23: creation functions produce exactly what they are given."""
from __future__ import annotations

import asyncio

import aioreactive as rx
from hypothesis import strategies as st

from ..kit import AsyncDisposable, Boom, Rec, fmt_notes, pause, require, run_case, same_notes, settle, val
from ..pipes import LONG, idx_st, obs_delays_st

try:
    from aioreactive.create import fail
except Exception:  # pragma: no cover
    fail = None
try:
    from aioreactive.create import create as _create
except Exception:  # pragma: no cover
    _create = rx.AsyncAnonymousObservable
try:
    from aioreactive.iterable.to_async_observable import to_async_observable
except Exception:  # pragma: no cover
    to_async_observable = rx.from_async_iterable

COUNTS = {"quick": 54000, "thorough": 400000}
RULE = ("every creation function (from_iterable over lists, generators, views, strings and iterables that raise at a random "
        "place; from_async_iterable; single; empty; never; fail; of_async; defer; custom observables; the AsyncRx "
        "constructors) with random values of all kinds, subscribed zero to three times in every calling form (observer, "
        "all or some callbacks, pipeable subscribe) by fast and slow observers. Compared with the given data; nothing is "
        "touched before subscription. Non-trivial: at least one value or error was delivered.")

KINDS = ["list", "list", "tuple", "gen", "range", "dict", "str", "raising", "aiter", "aiter", "aiter_raising", "single", "single", "empty", "never",
         "fail", "of_async", "of_async_raise", "defer", "defer_raise", "custom", "custom", "deque", "getitem",
         "future", "future_raise", "task", "set", "numbers"]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(KINDS))
    big = draw(st.integers(0, 299)) == 0
    return {"kind": kind, "vals": [draw(idx_st()) for _ in range(draw(st.integers(0, 8)))] if not big else [100 + i for i in range(400)],
            "gap": draw(st.sampled_from([0, 0, -1, -3, 0.5])), "n": draw(st.sampled_from([0, 1, 1, 1, 2, 3])),
            "form": draw(st.sampled_from(["obv", "obv", "cbs", "send", "send_throw", "kw", "piped", "none"])),
            "obs": draw(obs_delays_st()), "chained": draw(st.booleans()), "alt": draw(st.integers(0, 3)) == 0, "together": draw(st.booleans())}


class Tracked:
    def __init__(self, make):
        self.make = make
        self.touched = 0

    def __iter__(self):
        self.touched += 1
        return self.make()


class GetItem:
    """Old style iteration protocol."""

    def __init__(self, xs):
        self.xs = xs

    def __getitem__(self, i):
        return self.xs[i]


def enumerate_cases(tier):
    for kind in ("list", "gen", "range", "dict", "str", "aiter", "deque", "getitem"):
        yield {"kind": kind, "vals": [100 + i for i in range(LONG)], "gap": 0, "n": 1, "form": "obv", "obs": [], "chained": False,
               "together": False}


def execute(case):
    kind, vs = case["kind"], [val(i) for i in case["vals"]]
    boom = Boom("made")
    calls = []
    once = kind in ("gen", "of_async", "of_async_raise")
    n = min(case["n"], 1) if once else case["n"]
    recs = [Rec(delays=case["obs"]) for _ in range(n)]
    state = {"touched": 0}

    def lazily(xs, exc=None):
        def make():
            state["touched"] += 1
            yield from xs
            if exc is not None:
                raise exc

        class It:
            def __iter__(self):
                return make()
        return It()

    class AIt:
        def __init__(self, exc=None):
            self.exc = exc

        async def gen(self):
            state["touched"] += 1
            for v in vs:
                await pause(case["gap"])
                yield v
            await pause(case["gap"])
            if self.exc is not None:
                raise self.exc

        def __aiter__(self):
            return self.gen()

    coros = []

    def build():
        ch = case["chained"]
        fi = rx.AsyncRx.from_iterable if ch else rx.from_iterable
        if kind == "list":
            return fi(list(vs)), vs, ("C",)
        if kind == "tuple":
            return fi(lazily(vs)), vs, ("C",)
        if kind == "gen":
            return fi(iter(lazily(vs))), vs, ("C",)
        if kind == "range":
            return fi(range(len(vs))), list(range(len(vs))), ("C",)
        if kind == "dict":
            d = {i: v for i, v in enumerate(vs)}
            return fi(d.values()), vs, ("C",)
        if kind == "str":
            s = "".join(str(i) for i in case["vals"])
            return fi(s), list(s), ("C",)
        if kind == "deque":
            import collections
            return fi(collections.deque(vs)), vs, ("C",)
        if kind == "getitem":
            return fi(GetItem(vs)), vs, ("C",)
        if kind == "raising":
            return fi(lazily(vs, boom)), vs, ("E", boom)
        if kind == "set":
            xs = set(case["vals"])
            return fi(xs), list(xs), ("C",)
        if kind == "numbers":
            import array
            return fi(array.array("d", [float(i) for i in case["vals"]])), [float(i) for i in case["vals"]], ("C",)
        fa = to_async_observable if case.get("alt") else rx.AsyncRx.from_async_iterable if ch else rx.from_async_iterable
        if kind == "aiter":
            return fa(AIt()), vs, ("C",)
        if kind == "aiter_raising":
            return fa(AIt(boom)), vs, ("E", boom)
        if kind == "single":
            v = vs[0] if vs else None
            return (rx.AsyncRx.single if ch else rx.single)(v), [v], ("C",)
        if kind == "empty":
            return (rx.AsyncRx.empty if ch else rx.empty)(), [], ("C",)
        if kind == "never":
            return rx.never(), [], None
        if kind == "fail":
            return (fail(boom) if fail else rx.from_iterable(lazily([], boom))), [], ("E", boom)
        if kind in ("of_async", "of_async_raise"):
            v = vs[0] if vs else None

            async def work():
                state["touched"] += 1
                await pause(case["gap"])
                if kind == "of_async_raise":
                    raise boom
                return v

            c = work()
            coros.append(c)
            mk = rx.from_async if ch else rx.of_async
            return mk(c), ([v] if kind == "of_async" else []), ("C",) if kind == "of_async" else ("E", boom)
        if kind in ("future", "future_raise", "task"):
            loop = asyncio.get_running_loop()
            v = vs[0] if vs else None
            if kind == "task":
                async def later():
                    await pause(case["gap"])
                    return v
                fut = loop.create_task(later())
            else:
                fut = loop.create_future()
                done = (lambda: fut.set_exception(boom)) if kind == "future_raise" else (lambda: fut.set_result(v))
                if case["gap"] > 0:
                    loop.call_later(case["gap"], done)
                else:
                    done()
                fut.add_done_callback(lambda f: f.exception())
            mk = rx.from_async if ch else rx.of_async
            return mk(fut), ([v] if kind != "future_raise" else []), ("C",) if kind != "future_raise" else ("E", boom)
        if kind in ("defer", "defer_raise"):
            def factory():
                state["touched"] += 1
                if kind == "defer_raise":
                    raise boom
                k = state["touched"]
                return rx.from_iterable([("sub", k)] + vs)
            return rx.defer(factory), None, None

        async def subscribe(obv):
            state["touched"] += 1
            for v in vs:
                await obv.asend(v)
            await obv.aclose()
            return AsyncDisposable.empty()

        return (_create if case.get("alt") else rx.AsyncAnonymousObservable)(subscribe), vs, ("C",)

    async def main(loop):
        s, want, term = build()
        require(state["touched"] == 0, "%s: the source was used before anybody subscribed", kind)
        await settle()
        require(state["touched"] == 0, "%s: the source was used before anybody subscribed", kind)
        form = case["form"]

        async def one(i):
            r = recs[i]
            if form == "obv":
                return await s.subscribe_async(r)
            if form == "cbs":
                return await s.subscribe_async(r.asend, r.athrow, r.aclose)
            if form == "send":
                return await s.subscribe_async(r.asend)
            if form == "send_throw":
                return await s.subscribe_async(r.asend, r.athrow)
            if form == "kw":
                return await s.subscribe_async(throw=r.athrow, close=r.aclose)
            if form == "none":
                return await s.subscribe_async()
            return await rx.pipe(s, rx.subscribe_async(r))

        if case["together"]:
            await asyncio.gather(*(one(i) for i in range(n)))
        else:
            for i in range(n):
                await one(i)
                await pause(50)
        await asyncio.sleep(2000)
        for c in coros:
            if n == 0:
                c.close()
        return want, term

    _, (want, term) = run_case(main, what=kind)
    per = 0
    for i, r in enumerate(recs):
        if kind == "defer":
            r_want = [("N", v) for v in vs] + [("C",)]
            exp = [("N", ("sub", i + 1))] + r_want
            if case["together"] and r.notes and r.notes[0][0] == "N":
                exp[0] = r.notes[0]
        elif kind == "defer_raise":
            exp = [("E", boom)]
        else:
            exp = [("N", v) for v in want] + ([term] if term else [])
        keep = {"obv": "NEC", "cbs": "NEC", "piped": "NEC", "send": "N", "send_throw": "NE", "kw": "EC", "none": ""}[case["form"]]
        exp = [x for x in exp if x[0] in keep]
        require(same_notes(r.notes, exp), "%s/%s: subscriber %d got %s, expected %s", kind, case["form"], i, fmt_notes(r.notes), fmt_notes(exp))
        per += len(exp)
    if kind in ("tuple", "raising", "aiter", "aiter_raising", "defer", "defer_raise", "custom", "of_async", "of_async_raise", "gen"):
        require(state["touched"] == n, "%s: used %d times for %d subscriptions", kind, state["touched"], n)
    return per > 0, [kind, "form:" + case["form"], "subs:%d" % n]
