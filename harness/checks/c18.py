"""C18: async iteration over an observable yields exactly its notifications."""
from __future__ import annotations

import asyncio

import aioreactive as rx
from hypothesis import strategies as st

from ..kit import many, Boom, Hot, Probe, Rec, fmt_notes, pause, require, run_case, same, same_seq, settle, val
from ..pipes import LONG, long_source, Ctx, build_op, build_source, idx_st, model_pipeline, op_st, FN_OPS, POS_OPS, ACC_OPS

COUNTS = {"quick": 48000, "thorough": 350000}
RULE = ("random timed sources (one, several concurrent producers, or a pipeline) iterated with async for or by explicit "
        "anext calls with random pauses, random timeouts that cancel a waiting anext, early exit with disposal, and further "
        "anext calls after the end; sources may emit while being subscribed to, be slow to "
        "subscribe to or fail at it. Every value is seen exactly once in order despite cancellations, the end or error "
        "(same object) follows and repeats, producers are never left blocked. Non-trivial: at least two values and a "
        "timeout, several producers, early exit or an error.")


@st.composite
def cases(draw):
    mode = draw(st.sampled_from(["for", "for", "next", "next", "multi", "early"]))
    c = {"mode": mode}
    if mode == "for":
        c["n"] = draw(st.sampled_from([1, 1, 1, 2, 3]))
        c["together"] = draw(st.booleans())
        c["via"] = draw(st.sampled_from(["fn", "method"]))
        c["src"] = {"k": draw(st.sampled_from(["task", "task", "sync", "sync", "iter", "aiter", "subj", "single", "empty", "ssubj", "sfail"])), "v": draw(st.integers(0, 26)),
                    "s": [[draw(st.sampled_from([0, 0, -1, 0.5, 1])), "N", draw(idx_st())] for _ in range(draw(many(0, 7, 40)))]
                    + [draw(st.sampled_from([[0, "C", None], [1, "C", None], [0, "E", "e"], [1, "E", "e"]]))]}
        if c["src"]["k"] == "single":
            c["src"]["s"] = [[0, "N", c["src"]["v"]], [0, "C", None]]
        if c["src"]["k"] == "empty":
            c["src"]["s"] = [[0, "C", None]]
        if c["src"]["k"] == "sfail":
            c["src"]["s"] = []
        if c["src"]["k"] in ("task", "sync", "sfail"):
            c["src"]["sd"] = draw(st.sampled_from([0, 0, -1, -3, 0.75]))
        c["ops"] = [draw(op_st([o for o in FN_OPS + POS_OPS + ACC_OPS], raising=draw(st.booleans()))) for _ in range(draw(st.integers(0, 2)))]
        for o in c["ops"]:  # what is reduced from nothing is not specified
            if o[0].startswith("reduce"):
                o[0] = "scan"
    elif mode in ("next", "early"):
        n = draw(many(0, 6, 30))
        c["gaps"] = [draw(st.sampled_from([0, 1, 1, 2, 3])) for _ in range(n)]
        c["term"] = draw(st.sampled_from("CEN"))
        c["tgap"] = draw(st.sampled_from([0, 1, 3]))
        c["awaits"] = draw(st.booleans())
        steps = []
        for _ in range(draw(many(1, 10, 50))):
            steps.append([draw(st.sampled_from([0, 0, 0.3, 1.3, 2.3])), draw(st.sampled_from([None, None, 0.2, 0.9, 1.7]))])
        c["steps"] = steps
        c["pend"] = draw(st.booleans())
        c["sd"] = draw(st.sampled_from([0, 0, 0, -2, 0.51, 2.03]))
        c["pre"] = draw(st.sampled_from([0, 0, 1.3, 9]))
    else:
        m = draw(many(2, 4, 12))
        c["prods"] = [[draw(st.sampled_from([0, 0, -1, 0.5, 1])) for _ in range(draw(st.integers(0, 4)))] for _ in range(m)]
        c["term"] = draw(st.sampled_from("CEN"))
        c["tt"] = draw(st.sampled_from([0.6, 1.6, 50]))
        c["cons"] = draw(st.sampled_from([0, 0.25, 1.5]))
        c["terms"] = draw(st.integers(1, 2))
    return c


def enumerate_cases(tier):
    for k in ("task", "iter", "aiter", "subj"):
        yield {"mode": "for", "src": {**long_source(kind=k), "v": 0}, "ops": []}
    yield {"mode": "next", "gaps": [0, 1] * (LONG // 2), "term": "C", "tgap": 1, "awaits": True, "steps": [[0, None]] * LONG}


def execute(case):
    return {"for": run_for, "next": run_next, "early": run_next, "multi": run_multi}[case["mode"]](case)


def run_for(case):
    ctx = Ctx()
    outs = []

    async def main(loop):
        s = build_source(ctx, case["src"])
        for pos, op in enumerate(case["ops"]):
            s = build_op(ctx, pos, op)(s)
        it = rx.to_async_iterable(s) if case.get("via") != "method" else rx.AsyncRx(s).to_async_iterable()

        async def iterate():
            got, end = [], []
            outs.append((got, end))
            try:
                async for x in it:
                    got.append(x)
                    await pause(0.25 if len(got) % 3 == 1 else 0)
            except Boom as ex:
                end.append(("E", ex))
            else:
                end.append(("C",))

        if case.get("together"):
            await asyncio.gather(*(loop.create_task(iterate()) for _ in range(case.get("n", 1))))
        else:
            for _ in range(case.get("n", 1)):
                await iterate()
        await settle()

    run_case(main, what="async for")
    mctx = Ctx()
    mctx.booms = ctx.booms
    if case["src"]["k"] == "sfail":
        vs, term = [], ("E", mctx.boom("sfail"))
    else:
        vs, term = model_pipeline(mctx, case["src"], case["ops"])
    for got, end in outs:
        require(same_seq(got, vs), "async for got %r, source produced %r", got, vs)
        require(end[0][0] == term[0] and (term[0] == "C" or end[0][1] is term[1]), "async for ended with %r, expected %r", end, term)
    return len(vs) > 1, ["for", case["src"]["k"], "end:" + term[0], "iterations:%d" % len(outs)]


class LateHot(Hot):
    """Takes a while to subscribe to."""

    def __init__(self, sd):
        super().__init__()
        self.asked, self.sd, self.ready = 0, sd, asyncio.Event()

    async def subscribe_async(self, *args):
        self.asked += 1
        await pause(self.sd)
        sub = await super().subscribe_async(*args)
        self.ready.set()
        return sub


async def ended(coro):
    try:
        return await coro
    except (StopAsyncIteration, Boom) as ex:
        return ex


def unharmed(tasks):
    for t in tasks:
        if t.done() and t.exception() is not None:
            require(False, "sending raised %r at a producer", t.exception())


def run_next(case):
    """One producer, explicit anext with timeouts; all times chosen so that nothing coincides."""
    boom = Boom("e")
    n = len(case["gaps"])
    hot = LateHot(case.get("sd", 0))
    log, sent = [], []

    async def main(loop):
        it = aiter(rx.to_async_iterable(hot))
        state = {"done": None}

        async def produce():
            # starts with the first subscription
            await hot.ready.wait()
            await asyncio.sleep(2.0 ** -10)
            for i, g in enumerate(case["gaps"]):
                await asyncio.sleep(g + 2.0 ** -8)
                if case["awaits"]:
                    await hot.emit(("N", i))
                else:
                    tasks.append(loop.create_task(hot.emit(("N", i))))
                sent.append((i, loop.time()))
            await asyncio.sleep(case["tgap"] + 2.0 ** -8)
            if case["term"] != "N":
                tasks.append(loop.create_task(hot.emit(("C",) if case["term"] == "C" else ("E", boom))))

        tasks = []
        prod = loop.create_task(produce())
        for wait, timeout in case["steps"]:
            await pause(wait)
            t0 = loop.time()
            try:
                if timeout is None and (case["term"] != "N"):
                    log.append(("N", await anext(it), loop.time()))
                else:
                    log.append(("N", await asyncio.wait_for(anext(it), timeout or 0.4), loop.time()))
            except StopAsyncIteration:
                log.append(("C",))
            except Boom as ex:
                require(ex is boom, "another error was raised")
                log.append(("E",))
            except asyncio.TimeoutError:
                log.append(("T", loop.time() - t0))
                require(abs(loop.time() - t0 - (timeout or 0.4)) < 1e-6, "timeout honoured after %s instead of %s", loop.time() - t0, timeout or 0.4)
        if case["mode"] == "early" and hasattr(it, "dispose_async"):
            await pause(case.get("pre", 0))  # something may have been sent meanwhile
            waiting = None
            if case.get("pend"):  # while somebody waits for the next value
                waiting = loop.create_task(ended(anext(it)))
                await settle()
            count = hot.asked
            await it.dispose_async()
            if waiting:
                await asyncio.sleep(0.01)
                require(waiting.done(), "anext hangs although the iterator was disposed meanwhile")
            for _ in range(2):  # nothing more
                try:
                    x = await asyncio.wait_for(anext(it), 5)
                except (StopAsyncIteration, Boom):
                    pass
                except asyncio.TimeoutError:
                    require(False, "anext hangs after the iterator was disposed")
                else:
                    require(False, "anext returned %r after the iterator was disposed", x)
                require(hot.asked == count, "a disposed iterator subscribes to the source again")
                await asyncio.sleep(150)
            require((prod.done() or not count) and all(t.done() for t in tasks), "a producer is still blocked after the iterator was disposed")
            require(not hot.attached, "the source is still subscribed after the iterator was disposed")
        else:
            # drain what is left
            for _ in range(n + 1):
                if case["term"] == "N" and sum(1 for x in log if x[0] == "N") >= n:
                    break
                if log and log[-1][0] in "CE":
                    break
                try:
                    log.append(("N", await asyncio.wait_for(anext(it), 60), loop.time()))
                except StopAsyncIteration:
                    log.append(("C",))
                except Boom:
                    log.append(("E",))
                except asyncio.TimeoutError:
                    log.append(("T", 60))
            if case["term"] != "N":
                await asyncio.sleep(1)
                require(prod.done() and all(t.done() for t in tasks), "a producer is still blocked after the iteration ended")
                for _ in range(2):  # the end repeats
                    try:
                        x = await asyncio.wait_for(anext(it), 5)
                    except (StopAsyncIteration, Boom):
                        continue
                    except asyncio.TimeoutError:
                        require(False, "anext hangs after the end of the iteration")
                    require(False, "anext returned %r after the end of the iteration", x)
        require(hot.asked <= 1, "the source was subscribed to %d times", hot.asked)
        unharmed([prod, *tasks])
        prod.cancel()
        await settle()

    run_case(main, what="anext")
    got = [x[1] for x in log if x[0] == "N"]
    require(got == list(range(len(got))), "anext returned %r", got)
    kinds = [x[0] for x in log]
    for i, k in enumerate(kinds):
        if k in "CE":
            require(k == case["term"] and len(got) == n, "iteration ended with %s after %d of %d values", k, len(got), n)
            require(all(q == k for q in kinds[i:]), "iteration continued after its end: %r", kinds)
            break
    else:
        if case["mode"] != "early":
            require(case["term"] == "N" and len(got) == n, "iteration yielded %d of %d values and never ended: %r", len(got), n, kinds)
    # a value is not handed out before it was sent nor later than asked for
    return len(got) > 1 and ("T" in kinds or case["mode"] == "early" or case["term"] == "E"), \
        [case["mode"], "end:" + case["term"]] + ["timeouts"] * ("T" in kinds)


def run_multi(case):
    boom = Boom("e")
    hot = Hot()
    got, end, sent_before_end = [], [], []

    async def main(loop):
        tasks = []

        async def consume():
            try:
                async for x in rx.to_async_iterable(hot):
                    got.append((x, loop.time()))
                    await pause(case["cons"])
            except Boom as ex:
                end.append(("E", ex, loop.time()))
            else:
                end.append(("C", None, loop.time()))

        cons = loop.create_task(consume())
        await settle()

        async def produce(i, gaps):
            for j, g in enumerate(gaps):
                await pause(g)
                await hot.subs[0].observer.asend((i, j))

        for i, gaps in enumerate(case["prods"]):
            tasks.append(loop.create_task(produce(i, gaps)))

        async def finish():
            await asyncio.sleep(case["tt"] + 0.01)
            obv = hot.subs[0].observer
            if case["term"] == "C":
                await obv.aclose()
            elif case["term"] == "E":
                await obv.athrow(boom)

        for _ in range(case["terms"]):
            tasks.append(loop.create_task(finish()))
        await asyncio.sleep(600)
        unharmed(tasks)
        require(all(t.done() for t in tasks), "a producer is still blocked (consumer got %d values, end=%r)", len(got), end)
        if case["term"] != "N":
            require(cons.done() and end and end[0][0] == case["term"] and (case["term"] == "C" or end[0][1] is boom),
                    "iteration ended with %r, expected %s", end, case["term"])
        else:
            require(not end, "iteration ended although nothing ended it")
            cons.cancel()
        await settle()

    run_case(main, what="async for with several producers")
    vals = [v for v, _ in got]
    require(len(set(vals)) == len(vals), "a value was yielded twice: %r", vals)
    for i, gaps in enumerate(case["prods"]):
        js = [j for a, j in vals if a == i]
        require(js == list(range(len(js))), "values of producer %d came out as %r", i, js)
        if case["term"] == "N" or case["tt"] >= 50:
            require(len(js) == len(gaps), "producer %d sent %d values, %d came out", i, len(gaps), len(js))
    return len(vals) > 1, ["multi", "end:" + case["term"]]
