"""C10: catch and retry."""
from __future__ import annotations

import asyncio

import aioreactive as rx
from hypothesis import strategies as st

from ..kit import many, AsyncObservable, Probe, Rec, fmt_notes, pause, require, run_case, same_notes, settle, trace_notes
from ..pipes import Ctx, build_source, idx_st, obs_delays_st, real_script, script_trace
from ..simul import dur

COUNTS = {"quick": 48000, "thorough": 350000}
RULE = ("random timed sources that fail or not, with handler sequences that complete, fail, never end, raise or cannot be "
        "subscribed, up to three nested catch operators; flaky sources with a different random script for every "
        "attempt under retry(n), subscribed one to three times in a row or concurrently; optional disposal at a random "
        "time. Compared with the concatenation of the traces. Non-trivial: at least one error was handled.")

GAP = [0, 0, -1, -2, 0.5, 1, 2]


@st.composite
def script(draw, tag, terms="EECN", n=4):
    s = [[draw(st.sampled_from(GAP)), "N", draw(idx_st())] for _ in range(draw(many(0, n, 25, 40)))]
    t = draw(st.sampled_from(terms))
    if t != "N":
        s.append([draw(st.sampled_from(GAP)), t, tag if t == "E" else None])
    return s


@st.composite
def spec(draw, tag, terms="EECN"):
    s = draw(script(tag, terms))
    ks = ["task", "task", "task", "sync", "subj", "aiter"]
    if s and s[-1][1] != "N":
        ks.append("iter")
        if s[-1][1] == "E":
            ks.append("ival")
    k = draw(st.sampled_from(ks))
    if k == "ival":
        for x in s:
            x[0] = 1
    if k == "sync":
        for x in s:
            x[0] = 0
    return {"k": k, "s": s}


@st.composite
def cases(draw):
    form = draw(st.sampled_from(["catch", "catch", "retry", "retry"]))
    c = {"form": form, "obs": draw(obs_delays_st())}
    if form == "catch":
        c["src"] = draw(spec("src"))
        hs = []
        for i in range(draw(st.integers(1, 3))):
            bad = draw(st.integers(0, 11))
            hs.append({"raise": f"h{i}"} if bad == 0 else {"subraise": f"h{i}"} if bad == 1 else draw(spec(f"h{i}", "CCEN")))
        c["handlers"] = hs
    else:
        c["n"] = draw(many(0, 5, 30))
        m = draw(many(1, 5, 30))
        c["attempts"] = [draw(script(f"a{i}", "EEEECN", n=3)) for i in range(m)]
        c["sync"] = draw(st.integers(0, 3)) == 0
        if c["sync"]:
            for s in c["attempts"]:
                for x in s:
                    x[0] = 0
        c["subs"] = draw(st.integers(1, 3))
        c["together"] = draw(st.booleans())
    c["t"] = draw(st.sampled_from([None, None, 0.37, 1.37, 2.87])) if not c["obs"] else None
    if c["t"] is None and draw(st.integers(0, 3)) == 0:  # sources slow to subscribe to, slow to release
        c["sd"], c["dd"] = draw(st.sampled_from([0, -1, 0.25, 1.5])), draw(st.sampled_from([0, -1, -3, 0.25, 1.5]))
    return c


def enumerate_cases(tier):
    """More attempts than the interpreter allows nested calls."""
    fail, run = [[0, "E", "a"]], [[0, "N", 3], [1, "N", 4]]
    for sync in (False, True):
        for n, more in ((1300, run), (1300, []), (1250, fail), (1250, [])):
            yield {"form": "retry", "obs": [], "n": n, "attempts": [fail] * 1300 + [more], "sync": sync, "subs": 1,
                   "together": False, "t": 2.87 if more is run else None}


class Flaky(AsyncObservable):
    """Attempt number k of one subscriber runs script k (the last one repeats)."""

    def __init__(self, ctx, scripts, sync, sd=0, dd=0):
        self.slow = {"subscribe_delay": sd, "dispose_delay": dd}
        self.probes = []
        self.scripts = [real_script(ctx, s) for s in scripts]
        self.sync = sync

    async def subscribe_async(self, send=None, throw=None, close=None):
        k = len(self.probes)
        p = Probe(self.scripts[min(k, len(self.scripts) - 1)], mode="sync" if self.sync else "task", **self.slow)
        self.probes.append(p)
        return await p.subscribe_async(send, throw, close)


class PerSubscriber(AsyncObservable):
    """Hands every top-level subscription its own Flaky, in subscription order."""

    def __init__(self, flakies):
        self.flakies = flakies
        self.current = None

    async def subscribe_async(self, send=None, throw=None, close=None):
        return await self.current.subscribe_async(send, throw, close)


def trace(ctx, s):
    """(time, note) list relative to subscription, ignoring observer delays."""
    t, out = 0.0, []
    for g, k, x in real_script(ctx, s):
        t += dur(g)
        out.append((t, ("N", x) if k == "N" else ("E", x) if k == "E" else ("C",)))
        if k != "N":
            break
    return out


def chain(first, more):
    """Replace a final error of `first` by `more(exc)` shifted to that time."""
    if not first or first[-1][1][0] != "E":
        return first
    t, (_, ex) = first[-1]
    return first[:-1] + [(t + dt, n) for dt, n in more(ex)]


def untimed(spec_, tr):
    if spec_.get("k") in ("sync", "iter"):
        return [(0.0, n) for _, n in tr]
    return tr


def execute(case):
    return (run_catch if case["form"] == "catch" else run_retry)(case)


def compare(rec, want, case, what, exact):
    t = case["t"]
    if t is not None:
        want = [(u, n) for u, n in want if u < t]
    notes = [n for _, n in want]
    require(same_notes(rec.notes, notes), "%s: got %s, expected %s", what, fmt_notes(rec.notes), fmt_notes(notes))
    if exact:
        for (u, n), (v, _) in zip(rec.events, want):
            require(abs(u - v) < 1e-5, "%s: %s at %s, expected at %s", what, n, u, v)


def slowed(case, spec_):
    return {**spec_, "sd": case.get("sd", 0), "dd": case.get("dd", 0)}


def failed_is_released(what, probe, exc):
    """A source whose error has been dealt with is unsubscribed."""
    for sub in probe.subs:
        if sub.ended and probe.script and probe.script[-1][1] == "E" and any(probe.script[-1][2] is e for e in exc):
            require(sub.disposed, "%s: the subscription to a failed source is never disposed", what)


def run_catch(case):
    ctx = Ctx()
    rec = Rec(delays=case["obs"])
    got = []

    def mk(i, h):
        def handler(ex):
            got.append((i, ex))
            if "raise" in h:
                raise ctx.boom(h["raise"])
            if "subraise" in h:
                return Probe([], subscribe_exc=ctx.boom(h["subraise"]))
            return build_source(ctx, slowed(case, h))
        return handler

    slow = case.get("sd", 0) or case.get("dd", 0)

    async def main(loop):
        s = build_source(ctx, slowed(case, case["src"]))
        for i, h in enumerate(case["handlers"]):
            s = rx.catch(mk(i, h))(s)
        sub = await s.subscribe_async(rec)
        if case["t"] is not None:
            await asyncio.sleep(case["t"] - loop.time())
            await sub.dispose_async()
        await settle()

    run_case(main, what="catch")
    want = untimed(case["src"], trace(ctx, case["src"]["s"]))
    calls = []
    for i, h in enumerate(case["handlers"]):
        def more(ex, i=i, h=h):
            calls.append((i, ex))
            if "raise" in h or "subraise" in h:
                return [(0.0, ("E", ctx.boom(h.get("raise") or h.get("subraise"))))]
            return untimed(h, trace(ctx, h["s"]))
        # a handler is only invoked when the error happens before disposal
        if case["t"] is not None and want and want[-1][0] > case["t"]:
            break
        want = chain(want, more)
    compare(rec, want, case, "catch", not case["obs"] and not slow)
    require(len(got) == len(calls) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(got, calls)),
            "catch: handlers invoked with %r, expected %r", got, calls)
    for p in ctx.probes:
        if case["t"] is not None or rec.term is not None:
            require(not p.attached, "catch: a source is still subscribed after the end")
        failed_is_released("catch", p, [ex for _, ex in got])
    return bool(calls), ["catch", f"end:{rec.term[0] if rec.term else None}"] + ["disposed"] * (case["t"] is not None)


def run_retry(case):
    ctx = Ctx()
    n, subs = case["n"], case["subs"]
    recs = [Rec(delays=case["obs"]) for _ in range(subs)]
    flakies = [Flaky(ctx, case["attempts"], case["sync"], case.get("sd", 0), case.get("dd", 0)) for _ in range(subs)]
    starts = []

    # attempt numbering must be per subscriber: identify the subscriber by a context variable
    import contextvars
    who = contextvars.ContextVar("who")

    class Src(AsyncObservable):
        async def subscribe_async(self, send=None, throw=None, close=None):
            return await flakies[who.get()].subscribe_async(send, throw, close)

    async def main(loop):
        s = rx.retry(n)(Src())

        async def one(i):
            who.set(i)
            starts.append(loop.time())
            sub = await s.subscribe_async(recs[i])
            if case["t"] is not None:
                await asyncio.sleep(starts[-1] + case["t"] - loop.time() if not case["together"] else case["t"] - loop.time())
                await sub.dispose_async()

        if case["together"]:
            await asyncio.gather(*(loop.create_task(one(i)) for i in range(subs)))
        else:
            for i in range(subs):
                await loop.create_task(one(i))
                await pause(60)
        await settle()

    run_case(main, what="retry")
    errors = 0
    for i, rec in enumerate(recs):
        want, used, t0 = [], 0, (0.0 if case["together"] else starts[i])
        for k in range(n + 1):
            tr = trace(ctx, case["attempts"][min(k, len(case["attempts"]) - 1)])
            base = want[-1][0] if want else 0.0
            if used and case["t"] is not None and base > case["t"]:
                break
            used += 1
            want = want[:-1] + [(base + dt, x) for dt, x in tr] if want else tr
            if not tr or tr[-1][1][0] != "E":
                break
        errors += used - 1
        rec.events = [(t - t0, x) for t, x in rec.events]
        compare(rec, want, case, f"retry({n}) subscriber {i}", not case["obs"] and not case.get("sd") and not case.get("dd"))
        probes = flakies[i].probes
        for a, b in zip(probes, probes[1:]):
            failed_is_released("retry", a, [a.script[-1][2]])
            require(a.subs[0].disposed_at <= b.subs[0].t + 1e-9, "retry(%d): resubscribed at %s, the failed attempt released at %s",
                    n, b.subs[0].t, a.subs[0].disposed_at)
        require(len(flakies[i].probes) == used, "retry(%d) subscriber %d: source subscribed %d times, expected %d",
                n, i, len(flakies[i].probes), used)
        if case["t"] is not None or rec.term is not None:
            require(not any(p.attached for p in flakies[i].probes), "retry(%d): source still subscribed after the end", n)
    return errors > 0, ["retry", f"n:{n}", f"subs:{subs}"] + ["disposed"] * (case["t"] is not None)
