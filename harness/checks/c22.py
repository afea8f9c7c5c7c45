"""C22: run() and the awaitable observer."""
from __future__ import annotations

import asyncio

import aioreactive as rx
from hypothesis import strategies as st

from ..kit import many, Boom, Probe, fmt_notes, pause, require, run_case, same, same_notes, settle, val
from ..pipes import TWO_OPS, INNER_OPS, describe, instant_sync, is_slow, slow_probes, source_st, long_source, Ctx, FN_OPS, POS_OPS, ACC_OPS, build_op, build_source, idx_st, model_pipeline, op_st, real_script
from ..simul import dur

COUNTS = {"quick": 48000, "thorough": 350000}
RULE = ("run() over random sources and pipelines with random timeouts, an own observer or none, and cancellation by the "
        "caller; result, error and times are compared with the source trace and the source must be unsubscribed however it "
        "ends. Random call histories on AsyncAwaitableObserver itself (sends, terminals, cancellation, disposal) are "
        "compared with a model. Non-trivial: a result, error, timeout or cancellation after at least one value.")

MULTI = TWO_OPS * 3 + INNER_OPS + ["map", "delay", "debounce", "take", "scan", "retry", "zip_seq"]


@st.composite
def cases(draw):
    if draw(st.integers(0, 3)) == 0:
        hist = [draw(st.sampled_from([["N", 0], ["N", 1], ["N", 3], ["N", 7], ["C"], ["E"], ["cancel"], ["dispose"], ["await"]]))
                for _ in range(draw(many(1, 8, 30)))]
        if draw(st.booleans()):  # some calls overlap with the following ones
            hist = [[*h, "bg"] if h[0] in "NCE" and draw(st.booleans()) else h for h in hist]
        return {"mode": "obs", "hist": hist, "d": draw(st.sampled_from([0, -1, 0.5]))}
    if draw(st.integers(0, 5)) == 0:  # many sources; only what is left behind matters
        src = draw(source_st(max_len=5, kinds=["task", "task", "task", "aiter", "subj"]))
        ops = [draw(op_st(MULTI, tag=f"o{i}", src_kw={"max_len": 4, "kinds": ["task", "task", "aiter"]}))
               for i in range(draw(st.integers(1, 3)))]
        instant_sync([src, ops])
        draw(slow_probes([src, ops], odds=2, how=1))  # cancelling the disposal itself is another matter
        return {"mode": "tree", "src": src, "ops": ops, "timeout": draw(st.sampled_from([0.3001, 1.617, 100, 0])),
                "cancel": draw(st.sampled_from([None, 0.1003, 0.7071, 2.3, -1, -2, -4, -7]))}
    s = [[draw(st.sampled_from([0, 0, -1, 0.25, 0.5, 1])), "N", draw(idx_st())] for _ in range(draw(many(0, 5, 40)))]
    t = draw(st.sampled_from("CCCEN"))
    if t != "N":
        s.append([draw(st.sampled_from([0, 0.5, 1])), t, "e" if t == "E" else None])
    kinds = ["task", "task", "task", "aiter", "subj", "ssubj"] + (["iter"] if t != "N" else [])
    ops = [draw(op_st(FN_OPS + POS_OPS + ["scan", "scan_async"])) for _ in range(draw(st.sampled_from([0, 0, 1, 2])))]
    return {"mode": "run", "subexc": draw(st.integers(0, 24)) == 0, "src": {"k": draw(st.sampled_from(kinds)), "s": s}, "ops": ops,
            "timeout": draw(st.sampled_from([None, 1.617, 100, 0.3001, 1000, "none", 90000.5, 0])), "own": draw(st.booleans()), "od": draw(st.sampled_from([0, 0, 0, -1, 0.3])),
            "precancel": draw(st.integers(0, 19)) == 0,
            "cancel": draw(st.sampled_from([None, None, None, 0.7071, 0.1003]))}


def enumerate_cases(tier):
    for k in ("task", "iter"):
        yield {"mode": "run", "src": long_source(kind=k), "ops": [], "timeout": 100, "own": True, "cancel": None}


def execute(case):
    return {"obs": run_obs, "tree": run_tree, "run": run_run}[case["mode"]](case)


def run_tree(case):
    what = "run of " + describe(case["src"], case["ops"])
    ctx, seen, out = Ctx(), [], {}

    async def send(v):
        seen.append(v)

    async def main(loop):
        s = build_source(ctx, case["src"])
        for pos, op in enumerate(case["ops"]):
            s = build_op(ctx, pos, op)(s)
        task = loop.create_task(rx.run(s, rx.AsyncAwaitableObserver(send), timeout=case["timeout"]))
        if case["cancel"] is not None:
            await pause(case["cancel"])
            if not task.done():
                task.cancel()
                out["cancelled"] = True
        await asyncio.wait([task], timeout=1e6)
        require(task.done(), "%s: did not end", what)
        out["end"] = "cancelled" if task.cancelled() else repr(task.exception())
        out["seen"] = len(seen)
        await asyncio.sleep(0.01)
        out["iters"] = [it.waiting for it in ctx.iters]
        await asyncio.sleep(500)
        await settle()

    loop, _ = run_case(main, what=what)
    slow = is_slow([case["src"], case["ops"]])
    for p in ctx.probes:
        require(not p.attached, "%s: a source is still subscribed after it ended with %s", what, out["end"])
    require(slow or not any(out["iters"]), "%s: an async iterable is still being pulled after it ended with %s", what, out["end"])
    require(len(seen) == out["seen"], "%s: %r delivered after it ended with %s", what, seen[out["seen"]:], out["end"])
    require(not loop.pending_timers, "%s: a timer is still running long after it ended with %s", what, out["end"])
    return bool(ctx.probes) and (bool(seen) or "cancelled" in out), ["tree", out["end"].split("(")[0]]


def run_run(case):
    ctx = Ctx()
    out = {}
    own = []

    async def main(loop):
        s = build_source(ctx, case["src"])
        if case.get("subexc"):
            s = Probe([], subscribe_exc=ctx.boom("subscribe"))
        for pos, op in enumerate(case["ops"]):
            s = build_op(ctx, pos, op)(s)
        kw = {} if case["timeout"] is None else {"timeout": case["timeout"] if case["timeout"] != "none" else None}
        if case["own"]:
            async def send(v):
                own.append(("N", v))
                await pause(case.get("od", 0))

            async def throw(e):
                own.append(("E", e))
                await pause(case.get("od", 0))

            async def close():
                own.append(("C",))
                await pause(case.get("od", 0))

            obv = rx.AsyncAwaitableObserver(send, throw, close)
            if case.get("precancel"):
                obv.cancel()
            coro = rx.run(s, obv, **kw)
        else:
            coro = rx.run(s, **kw)
        task = loop.create_task(coro)
        task.add_done_callback(lambda _t: out.setdefault("t", loop.time()))
        if case["cancel"] is not None:
            await asyncio.sleep(case["cancel"])
            if not task.done():
                task.cancel()
                out["cancelled"] = True
        await asyncio.wait([task], timeout=1e6)
        if not task.done():
            require(case["timeout"] == "none" and case["cancel"] is None, "run: did not end")
            task.cancel()
            out["cancelled"] = True
            await asyncio.wait([task])
        if task.cancelled():
            out["end"] = "cancelled"
        elif task.exception() is not None:
            out["end"] = task.exception()
        else:
            out["value"] = task.result()
        await settle()
        for p in ctx.probes:
            require(not p.attached, "run: the source is still subscribed after run ended with %r", out.get("end", "a value"))
        await asyncio.sleep(20)  # whatever the source does later must not matter
        await settle()
        out["iters"] = [it.waiting for it in ctx.iters]

    loop, _ = run_case(main, what="run")
    require(not any(out["iters"]), "run: the async iterable is still being pulled")
    bad = [c for c in loop.errors if isinstance(c.get("exception"), asyncio.InvalidStateError)]
    require(not bad, "run: invalid state error in the background")
    mctx = Ctx()
    mctx.booms = ctx.booms
    if case.get("subexc"):
        require(out.get("end") is ctx.boom("subscribe"), "run: subscribing failed, got %r", out)
        return True, ["run", "subscribe-fails"]
    vs, term = model_pipeline(mctx, case["src"], case["ops"])
    if case["own"] and case.get("precancel"):
        require(out.get("end") == "cancelled" and out["t"] == 0, "run: with a cancelled observer ended with %r at %s", out.get("end", "a value"), out["t"])
        return bool(vs), ["run", "observer-cancelled-before"]
    if case["own"]:
        exp = [("N", v) for v in vs] + ([term] if term else [])
        n = len(own)
        require(n <= len(exp) and same_notes(own, exp[:n]), "run: own observer saw %s, expected %s", fmt_notes(own), fmt_notes(exp))
        if "value" in out or isinstance(out.get("end"), Boom):
            require(n == len(exp), "run: own observer saw %s, expected %s", fmt_notes(own), fmt_notes(exp))
    # when does the source end?
    limit = float("inf") if case["timeout"] == "none" else 2 if case["timeout"] is None else case["timeout"]
    if case["cancel"] is None and out.get("cancelled"):
        require(term is None, "run: did not end although the source did")
    elif out.get("cancelled"):
        require(out.get("end") == "cancelled" and abs(out["t"] - case["cancel"]) < 1e-6, "run: cancelled at %s but ended %s at %s",
                case["cancel"], out.get("end", out.get("value")), out["t"])
    elif isinstance(out.get("end"), TimeoutError) and not isinstance(out.get("end"), Boom):
        require(abs(out["t"] - limit) < 1e-6, "run: timed out at %s instead of %s", out["t"], limit)
        tend = end_time(case)
        require(term is None or tend is None or tend > limit - 1e-6, "run: timed out although the source ended at %s", tend)
    else:
        require(term is not None, "run: ended with %r although the source never ends", out)
        require(out["t"] <= limit + 1e-6, "run: ended at %s, after its timeout %s", out["t"], limit)
        if term[0] == "E":
            require(out.get("end") is term[1], "run: raised %r, expected %r", out.get("end", out.get("value")), term[1])
        elif vs:
            require("value" in out and same(out["value"], vs[-1]), "run: gave %r, expected %r", out, vs[-1])
        else:
            require(out.get("end") == "cancelled" or isinstance(out.get("end"), StopAsyncIteration),
                    "run: an empty source gave %r", out)
    return bool(vs) or "cancelled" in out, ["run", case["src"]["k"], "ended:" + ("value" if "value" in out else type(out["end"]).__name__
                                            if out["end"] != "cancelled" else "cancelled")]


def end_time(case):
    """Lower bound is exact for timed sources without operators that take time."""
    if any(o[1].get("d", 0) > 0 for o in case["ops"]) or any(o[0] in ("take", "getitem", "slice") for o in case["ops"]):
        return None
    if case["own"] and case.get("od"):
        return None
    if any(o[1].get("rz") for o in case["ops"]):
        return None
    return 0.0 if case["src"]["k"] == "iter" else sum(dur(x[0]) for x in case["src"]["s"])


def run_obs(case):
    boom = Boom("e")
    calls, finished, pending = [], [], []
    res = {}

    async def main(loop):
        async def send(v):
            await note(("N", v))

        async def throw(e):
            await note(("E", e))

        async def close():
            await note(("C",))

        async def note(n):
            calls.append(n)
            await pause(case["d"])
            finished.append(n)

        async def do(coro, bg):
            if not bg:
                await coro
                require(len(finished) == len(calls) or len(pending), "awaitable observer returned before its callback did")
                return
            t = loop.create_task(coro)
            pending.append(t)
            t.add_done_callback(pending.remove)
            await asyncio.sleep(0)
            await asyncio.sleep(0)

        obv = rx.AsyncAwaitableObserver(send, throw, close)
        want, stopped, fut, values = [], False, None, []
        for h in case["hist"]:
            if h[0] == "N":
                await do(obv.asend(val(h[1])), h[-1] == "bg")
                if not stopped:
                    want.append(("N", val(h[1])))
                    values.append(val(h[1]))
            elif h[0] == "E":
                await do(obv.athrow(boom), h[-1] == "bg")
                if not stopped:
                    want.append(("E", boom))
                    fut = fut or ("E", boom)
                    stopped = True
            elif h[0] == "C":
                await do(obv.aclose(), h[-1] == "bg")
                if not stopped:
                    want.append(("C",))
                    fut = fut or (("V", values[-1]) if values else ("cancelled",))
                    stopped = True
            elif h[0] == "cancel":
                obv.cancel()
                fut = fut or ("cancelled",)
            elif h[0] == "dispose":
                obv.dispose()
                stopped = True
            else:
                await settle()
            require(same_notes(calls, want), "awaitable observer called %s, expected %s", fmt_notes(calls), fmt_notes(want))
            if fut is None:
                require(not obv.done(), "awaitable observer is done without a terminal")
            else:
                require(obv.done(), "awaitable observer is not done after %s", fut[0])
                if fut[0] == "cancelled":
                    require(obv.cancelled(), "awaitable observer should be cancelled")
                elif fut[0] == "E":
                    require(not obv.cancelled() and obv.exception() is boom, "awaitable observer has the wrong error")
                else:
                    require(not obv.cancelled() and obv.exception() is None and same(obv.result(), fut[1]), "awaitable observer has the wrong result")
        res["n"] = len(want)

    run_case(main, what="awaitable observer")
    return res["n"] > 1, ["obs"]
