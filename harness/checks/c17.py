"""C17: back-pressure: a producer that awaits asend is held until the observer has handled the value."""
from __future__ import annotations

import asyncio

import aioreactive as rx
from hypothesis import strategies as st

from ..kit import many, AsyncAnonymousObserver, AsyncObservable, AsyncObserver, Rec, _ProbeDisposable, ProbeSub, pause, require, run_case, settle, val
from ..pipes import ACC_OPS, FN_OPS, Ctx, build_op, idx_st, model_op, op_st
from ..simul import dur

COUNTS = {"quick": 42000, "thorough": 350000}
RULE = ("a producer sends random values through 0-4 random element-wise or accumulating operators (also catch, retry and "
        "the chained wrapper), or through a subject, an async iterable, an interval or an async iterator, into observers "
        "with random delays; the value must have been handled completely before the producer's await returns, the next "
        "item is not pulled earlier, and the timing equals the sequential composition of all delays. "
        "Non-trivial: at least two values went through and the observer was slow.")

# operators that hand values straight through, hence hold back the producer
DIRECT = ["map", "map_async", "starmap", "starfilter", "filter", "filter_async", "choose", "choose_async", "scan", "scan_async",
          "ident", "catch", "retry"]


@st.composite
def cases(draw):
    src = draw(st.sampled_from(["direct", "direct", "subject", "subject", "single_subject", "aiter", "interval", "iterator", "iterator"]))
    ops = [draw(op_st(DIRECT, raising=False, src_kw={"max_len": 2, "kinds": ["task"]})) for _ in range(draw(st.integers(0, 4)))]
    n = draw(many(1, 6, 30))
    return {"src": src, "ops": ops, "vals": [draw(idx_st()) for _ in range(n)],
            "gaps": [draw(st.sampled_from([0, 0, 0.5, 1, -1])) for _ in range(n)], "nobs": draw(st.integers(1, 3)),
            "obs": draw(st.lists(st.sampled_from([0, 0.25, 1.5, 3, -2]), min_size=1, max_size=4)),
            "term": draw(st.sampled_from("CN"))}


class Manual(AsyncObservable):
    def __init__(self):
        self.observer = None
        self.dispose_delay = 0

    async def subscribe_async(self, send=None, throw=None, close=None):
        self.observer = send if isinstance(send, AsyncObserver) else AsyncAnonymousObserver(send, throw, close)
        return _ProbeDisposable(ProbeSub(self, self.observer, 0))


def execute(case):
    ctx = Ctx()
    kind, ops, values = case["src"], case["ops"], [val(i) for i in case["vals"]]
    recs = [Rec(delays=case["obs"][i:] + case["obs"][:i]) for i in range(case["nobs"] if kind == "subject" else 1)]
    log = []  # (value index, started, returned, finished-by-observers at return)

    def wrap(s):
        for pos, op in enumerate(ops):
            s = build_op(ctx, pos, op)(s)
        return s

    async def feed(loop, send, close):
        for i, v in enumerate(values):
            await pause(case["gaps"][i])
            t0 = loop.time()
            await send(v)
            log.append((t0, loop.time(), [r.finished for r in recs], [len(r.events) for r in recs]))
        if case["term"] == "C":
            await close()

    async def main(loop):
        if kind == "direct":
            src = Manual()
            await wrap(src).subscribe_async(recs[0])
            await feed(loop, src.observer.asend, src.observer.aclose)
        elif kind in ("subject", "single_subject"):
            subj = rx.AsyncSubject() if kind == "subject" else rx.AsyncSingleSubject()
            for r in recs:
                await wrap(subj).subscribe_async(r)
            await feed(loop, subj.asend, subj.aclose)
        elif kind == "aiter":
            async def items():
                for i, v in enumerate(values):
                    await pause(case["gaps"][i])
                    t0 = loop.time()
                    yield v
                    log.append((t0, loop.time(), [recs[0].finished], [len(recs[0].events)]))
            await wrap(rx.from_async_iterable(items())).subscribe_async(recs[0])
            await asyncio.sleep(600)
        elif kind == "interval":
            sub = await wrap(rx.interval(0.5, 1)).subscribe_async(recs[0])
            await asyncio.sleep(400)
            await sub.dispose_async()
        else:
            src = Manual()
            r = recs[0]

            async def consume():
                async for x in rx.to_async_iterable(wrap(src)):
                    await r.asend(x)
                await r.aclose()

            task = loop.create_task(consume())
            await settle()
            await feed(loop, src.observer.asend, src.observer.aclose)
            await asyncio.sleep(600)
            if case["term"] == "C":
                require(task.done(), "iteration did not end after the source completed")
            else:
                task.cancel()
        await settle()

    run_case(main, what=f"{kind}|{'|'.join(o[0] for o in ops)}")
    what = f"{kind}|{'|'.join(o[0] for o in ops)}"
    if kind == "interval":
        return interval_check(case, recs[0], ctx, what)
    # how many notes the observer has after value i, and at what times, by composition
    mctx = Ctx()
    mctx.booms = ctx.booms
    outs = []
    for i in range(len(values)):
        vs, term = values[: i + 1], None
        for pos, op in enumerate(ops):
            if op[0] not in ("catch", "retry"):
                vs, term = model_op(mctx, pos, op)(vs, term)
        outs.append(len(vs))
    if kind == "iterator":
        # a value is handed over when the consumer asks for the next one: one in flight at most
        for i, (t0, t1, fin, started) in enumerate(log):
            require(started[0] >= max(0, outs[i] - 1) and fin[0] >= outs[i] - 1, "%s: value %d accepted while %d of %d values were consumed", what, i, fin[0], outs[i])
        require(recs[0].finished == outs[-1] + (case["term"] == "C"), "%s: consumer handled %d values of %d", what, recs[0].finished, outs[-1])
        return len(values) > 1 and any(d > 0 for d in case["obs"]), [kind]
    for i, (t0, t1, fin, started) in enumerate(log):
        for j, r in enumerate(recs):
            require(fin[j] == outs[i] and started[j] == outs[i],
                    "%s: producer continued after value %d with %d delivered and %d handled, expected %d", what, i, started[j], fin[j], outs[i])
    # timing: everything happens in sequence
    t = 0.0
    for i in range(len(log)):
        t += dur(case["gaps"][i])
        require(abs(log[i][0] - t) < 1e-6, "%s: value %d produced at %s, expected at %s", what, i, log[i][0], t)
        prev = outs[i - 1] if i else 0
        reached = values[: i + 1]
        cost = 0.0
        for r in recs:
            # async user functions run once per value that reaches them
            vs, term = reached, None
            for pos, op in enumerate(ops):
                if op[0] in ("map_async", "filter_async", "choose_async", "scan_async"):
                    before = i and count_at(mctx, ops, pos, values[:i]) or 0
                    if count_at(mctx, ops, pos, reached) > before:
                        cost += dur(op[1].get("d", 0))
                if op[0] not in ("catch", "retry"):
                    vs, term = model_op(mctx, pos, op)(vs, term)
            if outs[i] > prev:
                cost += dur(r.delays[prev % len(r.delays)])
        t += cost
        require(abs(log[i][1] - t) < 1e-6, "%s: producer of value %d was released at %s, expected at %s", what, i, log[i][1], t)
    return len(values) > 1 and any(d > 0 for d in case["obs"]), [kind] + ["op:" + o[0] for o in ops]


def count_at(ctx, ops, pos, values):
    vs, term = values, None
    for q, op in enumerate(ops[:pos]):
        if op[0] not in ("catch", "retry"):
            vs, term = model_op(ctx, q, op)(vs, term)
    return len(vs)


def interval_check(case, rec, ctx, what):
    """interval waits for the observer before it starts the next period."""
    if any(o[0] in ("filter", "filter_async", "choose", "choose_async", "starfilter") for o in case["ops"]):
        return False, ["interval"]
    fn = sum(dur(o[1].get("d", 0)) for o in case["ops"] if o[0].endswith("_async"))
    t = 0.5
    for k, (at, _n) in enumerate(rec.events):
        require(abs(at - (t + fn)) < 1e-5, "%s: value %d at %s, expected at %s", what, k, at, t + fn)
        t += fn + dur(rec.delays[k % len(rec.delays)]) + 1
    require(t + fn > 400 - 1e-6, "%s: only %d values in 400 s, next was due at %s", what, len(rec.events), t + fn)
    return len(rec.events) > 1 and any(d > 0 for d in case["obs"]), ["interval"]
