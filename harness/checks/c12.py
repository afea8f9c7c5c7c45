"""C12: nothing is delivered after a subscription has been disposed."""
from __future__ import annotations

import asyncio
import json

import aioreactive as rx
from hypothesis import strategies as st

from ..kit import Boom, Rec, Violation, fmt_note, pause, require, run_case, settle
from ..pipes import (ACC_OPS, FN_OPS, GUARD_OPS, INNER_OPS, POS_OPS, TWO_OPS, Ctx, build_op, build_source, describe, instant_sync, is_slow, obs_delays_st,
                     op_st, slow_probes, source_st)

COUNTS = {"quick": 48000, "thorough": 400000}
RULE = ("random pipelines of 0-4 operators over every kind of source (also unbounded interval, endless iterables, sources that ignore "
        "disposal below a guarding operator); the subscription is disposed at a random virtual time or loop turn from "
        "outside, or from inside the k-th callback, once or several times, also concurrently. No notification may start "
        "after disposal returned, every scripted source is unsubscribed and time-driven ones stop. Non-trivial: the subscription was disposed "
        "before the observer saw a terminal notification.")
ASSUMPTIONS = ["a value that is inside an async user function when the subscription is disposed may still come out (one)",
               "single(x) used without any further operator is exempt: it hands over its value and completion at once "
               "(the repository's own tests pin that)"]

ANY = FN_OPS + POS_OPS + ACC_OPS + INNER_OPS * 2 + TWO_OPS * 2 + ["zip_seq", "delay", "delay", "debounce", "retry", "ident",
                                                                  "merge_empty", "catch", "catch"]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["s", "s", "s", "s", "interval", "timer"]))
    if kind == "s":
        src = draw(source_st(max_len=8))
        if draw(st.integers(0, 11)) == 0:  # an awaitable
            src = {"k": "coro", "s": [[draw(st.sampled_from([-2, 0.5, 2, 6])), draw(st.sampled_from("NNE")), 1]]}
    else:
        src = {"k": kind, "s": [], "a": draw(st.sampled_from([0, 0.5, 1])), "p": draw(st.sampled_from([0.5, 1]))}
    ops = [draw(op_st(ANY, raising=draw(st.booleans()), tag=f"o{i}")) for i in range(draw(st.integers(0, 4)))]
    if ops and ops[0][0] in GUARD_OPS and src["k"] in ("task", "sync") and draw(st.booleans()):
        src["deaf"] = 1
    act = draw(st.sampled_from(["out", "out", "turn", "in"]))
    instant_sync([src, ops])
    for o in ops:  # nothing can stop a handler sequence that emits everything while it is being subscribed
        if o[0] == "catch" and o[1]["src"]["k"] == "sync":
            o[1]["src"]["k"] = "task"
        if o[0] == "retry" and src["k"] in ("sync", "coro"):
            src["k"] = "task"
    if draw(st.integers(0, 7)) == 0:  # something that cannot be subscribed to and takes its time to say so
        if kind == "s" and draw(st.integers(0, 5)) == 0:
            src.update(k="sfail", sd=draw(st.sampled_from([0, -2, 0.5, 2, 5])))
        for o in ops:
            for x in [o[1]["src"]] if "src" in o[1] else o[1].get("inners", []):
                if draw(st.booleans()):
                    x.update(k="sfail", sd=draw(st.sampled_from([0, -2, 0.5, 2, 5])))
    if act == "turn" and draw(st.integers(0, 9)) == 0:  # no time passes as long as it is being pulled
        src = {"k": "endless", "s": []}
        ops = [o for o in ops if o[0] in FN_OPS + POS_OPS + ACC_OPS]
        for o in ops:
            o[1].pop("d", None)
        return {"src": src, "ops": ops, "obs": [], "act": act, "t": -draw(st.integers(0, 40)), "k": 0,
                "times": draw(st.sampled_from([1, 2])), "par": False, "boom": False}
    if src["k"] != "interval":  # not forever more inner sequences, each slow to come and go
        draw(slow_probes([src, ops]))
    return {"src": src, "ops": ops, "obs": draw(obs_delays_st()), "act": act,
            "t": draw(st.integers(0, 9)) + 0.1 if act == "out" else -draw(st.integers(0, 12)),
            "k": draw(st.integers(0, 4)), "times": draw(st.sampled_from([1, 1, 2, 3])), "par": draw(st.booleans()), "boom": act == "in" and draw(st.integers(0, 4)) == 0}


def build(ctx, case):
    src = case["src"]
    if src["k"] == "interval":
        s = rx.interval(src["a"], src["p"])
    elif src["k"] == "timer":
        s = rx.timer(src["a"])
    else:
        s = build_source(ctx, src)
    for pos, op in enumerate(case["ops"]):
        s = build_op(ctx, pos, op)(s)
    return s


def in_flight(case):
    """A value may be inside an async user function, with nothing after it that could still hold it back."""
    for name, p in case["ops"]:
        if name in ("map_async", "mapi_async", "filter_async", "choose_async", "scan_async") and p.get("d"):
            return True
    return False


def execute(case):
    what = describe(case["src"], case["ops"])
    ctx = Ctx()
    box = {"at": None, "t": None}

    async def dispose():
        if case["times"] > 1 and case["par"]:
            await asyncio.gather(*(box["sub"].dispose_async() for _ in range(case["times"])))
        else:
            for _ in range(case["times"]):
                await box["sub"].dispose_async()
        if box["at"] is None:
            box["at"] = len(rec.events)
            box["t"] = asyncio.get_running_loop().time()
            asyncio.get_running_loop().call_later(0.01, look)

    def look():
        box["soon"] = [it.waiting for it in ctx.iters]
        box["timers"] = asyncio.get_running_loop().library_timers()

    async def hook(k, note):
        if case["act"] == "in" and k == case["k"] and "sub" in box:
            await dispose()
            if case["boom"] and note[0] == "N":
                raise Boom("after-dispose")
            if note[0] != "N":
                box["ending"] = True
                await pause(0.2 if case["k"] % 2 else -1)
                box["ending"] = False

    rec = Rec(delays=case["obs"], hook=hook)

    async def main(loop):
        loop.track = True
        s = build(ctx, case)
        try:
            box["sub"] = await s.subscribe_async(rec)
        except Boom:
            if '"sfail"' not in json.dumps([case["src"], case["ops"]]):
                raise
            # there is no subscription then, which is as good as a disposed one
            box["failed"] = True
            await asyncio.sleep(0.05)
            box["at"], box["t"], box["soon"] = len(rec.events), loop.time(), []
        if "sub" not in box:
            pass
        elif case["act"] != "in":
            await pause(case["t"])
            await dispose()
        elif case["src"]["k"] == "interval":
            await asyncio.sleep(300)
            box["live"] = box["at"] is None
            if box["live"]:  # never got to the k-th notification
                await dispose()
        await asyncio.sleep(600)
        await settle()
        box["live_iters"] = [it.waiting for it in ctx.iters]

    loop, _ = run_case(main, what=what, horizon=2500)
    rec.check(what)
    at = box["at"]
    if at is None:
        return False, ["not-disposed"]
    folds = any(o[0].startswith(("scan", "reduce")) for o in case["ops"])  # these fail inside the source's own emission
    if box.get("ending") and not folds:
        raise Violation(f"{what}: the observer was cancelled while it handled {fmt_note(rec.notes[-1])}, in which it disposed")
    late = len(rec.events) - at
    if late == 1 and in_flight(case):
        late = 0
    if late:
        raise Violation(f"{what}: {fmt_note(rec.events[at][1])} delivered at {rec.events[at][0]} after disposal at {box['t']}")
    has_sync = is_slow([case["src"], case["ops"]]) or '"k": "sync"' in json.dumps([case["src"], case["ops"]])  # may still be being subscribed
    for p in ctx.probes:
        for sub in p.subs:
            require(not sub.attached, "%s: source still subscribed after disposal", what)
            if sub.disposed and p.stop_on_dispose and not has_sync:
                require(not sub.disposed_at or sub.disposed_at <= box["t"] + 1e-6 or sub.t > box["t"],
                        "%s: source unsubscribed at %s, subscription disposed at %s", what, sub.disposed_at, box["t"])
            require(sub.t <= box["t"] + 1e-6 or has_sync, "%s: source subscribed at %s after disposal at %s", what, sub.t, box["t"])
    if not has_sync:
        require(not any(box["soon"]), "%s: an async iterable or awaitable is still waited for after disposal", what)
        require(not box.get("timers") or case["src"].get("deaf"), "%s: a timer for %s is still running right after disposal at %s", what, box.get("timers"), box["t"])
    if case["src"]["k"] == "endless":
        require(ctx.endless.pulled < ctx.endless.LIMIT, "%s: nobody else got to run before %d items were pulled", what, ctx.endless.LIMIT)
    # time driven sources must have stopped: no timer left once everything settled
    require(not any(box["live_iters"]), "%s: an async iterable is still being pulled after disposal", what)
    require(not loop.pending_timers, "%s: a timer is still running long after disposal", what)
    return rec.term is None, [case["act"], "ops:%d" % len(case["ops"])] + ["op:" + o[0] for o in case["ops"]]
