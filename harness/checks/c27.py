"""C27: bridges to ReactiveX observables and from/to async iterables keep the sequence."""
from __future__ import annotations

import asyncio

import aioreactive as rx
from aioreactive.leave import to_async_iterable, to_observable
from hypothesis import strategies as st

from ..kit import Boom, Probe, Rec, fmt_notes, pause, require, run_case, same_notes, settle
from ..pipes import (long_source, ACC_OPS, FN_OPS, POS_OPS, Ctx, build_op, build_source, describe, model_pipeline, obs_delays_st, op_st,
                     real_script, source_st)

try:
    from aioreactive.iterable.to_async_observable import to_async_observable
except Exception:  # pragma: no cover
    to_async_observable = None

COUNTS = {"quick": 42000, "thorough": 300000}
RULE = ("random sources and pipelines are observed through a ReactiveX subscription (several subscribers, disposed at once, "
        "at a random time or loop turn, or from a callback; failing and slow subscribe), or taken through an async iterable "
        "and back; the observed trace must equal the model trace, a disposed subscriber sees nothing more, and every source "
        "ends up unsubscribed. Non-trivial: at least two notifications crossed the bridge, or a disposal cut it short.")


@st.composite
def cases(draw):
    mode = draw(st.sampled_from(["rx", "rx", "rx", "back", "fail"]))
    kinds = ["task", "task", "aiter", "subj", "iter", "sync"] if mode == "rx" else ["task", "aiter", "subj", "ssubj", "iter", "sync"]
    src = draw(source_st(max_len=6, kinds=kinds))
    if src["k"] in ("task", "sync"):
        src["sd"] = draw(st.sampled_from([0, 0, -1, -3, 0.75]))
    ops = [draw(op_st(FN_OPS + POS_OPS + ["scan", "scan_async"])) for _ in range(draw(st.sampled_from([0, 0, 1, 2])))]
    if mode == "fail":
        return {"mode": mode, "sd": draw(st.sampled_from([0, -1, 0.5])), "n": draw(st.integers(1, 2)),
                "disp": draw(st.sampled_from([None, None, 0, -1, 0.2002]))}
    if mode == "back":
        return {"mode": mode, "src": src, "ops": ops, "via": draw(st.sampled_from(["fn", "fn", "chain"])), "obs": draw(obs_delays_st()),
                "n": draw(st.sampled_from([1, 1, 1, 2, 3])), "gap": draw(st.sampled_from([0, 0, 1.1, 300]))}
    subs = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        act = draw(st.sampled_from([None, None, "out", "turn", "in", "now"]))
        subs.append([act, {"out": draw(st.integers(0, 4)) + 0.1003, "turn": -draw(st.integers(1, 9)), "in": draw(st.integers(0, 3))}.get(act, 0)])
    return {"mode": mode, "src": src, "ops": ops, "subs": subs}


def enumerate_cases(tier):
    for k in ("task", "iter"):
        yield {"mode": "rx", "src": long_source(kind=k), "ops": [], "subs": [[None, 0]]}
        yield {"mode": "back", "src": long_source(kind=k), "ops": [], "via": "fn", "obs": []}


def execute(case):
    return {"rx": run_rx, "back": run_back, "fail": run_fail}[case["mode"]](case)


def watch(seen, hook=None):
    def add(n):
        seen.append(n)
        if hook:
            hook(len(seen) - 1)

    return dict(on_next=lambda v: add(("N", v)), on_error=lambda e: add(("E", e)), on_completed=lambda: add(("C",)))


def run_rx(case):
    ctx = Ctx()
    what = "to_observable: " + describe(case["src"], case["ops"])
    outs = [[] for _ in case["subs"]]
    cut = [None] * len(outs)

    async def main(loop):
        s = build_source(ctx, case["src"])
        for pos, op in enumerate(case["ops"]):
            s = build_op(ctx, pos, op)(s)
        bridged = to_observable(s)
        subs = {}

        def dispose(i):
            subs[i].dispose()
            if cut[i] is None:
                cut[i] = len(outs[i])

        async def later(i, d):
            await pause(d)
            dispose(i)

        for i, (act, arg) in enumerate(case["subs"]):
            def hook(k, i=i, act=act, arg=arg):
                if act == "in" and k == arg and i in subs:
                    dispose(i)

            subs[i] = bridged.subscribe(**watch(outs[i], hook))
            if act == "now":
                dispose(i)
            elif act in ("out", "turn"):
                loop.create_task(later(i, arg))
        await asyncio.sleep(600)
        await settle()
        for p in ctx.probes:
            for k, sub in enumerate(p.subs):
                # only a sequence that neither ended nor was disposed may still be attached
                open_ = [i for i in range(len(outs)) if cut[i] is None and not (outs[i] and outs[i][-1][0] != "N")]
                require(not sub.attached or open_, "%s: the source is still subscribed after %s", what,
                        [fmt_notes(o) for o in outs])
        if any(c is not None for c in cut):
            require(not any(it.waiting for it in ctx.iters) or any(c is None for c in cut),
                    "%s: an async iterable is still being pulled after disposal", what)

    run_case(main, what=what, horizon=1500)
    mctx = Ctx()
    mctx.booms = ctx.booms
    vs, term = model_pipeline(mctx, case["src"], case["ops"])
    exp = [("N", v) for v in vs] + ([term] if term else [])
    for i, got in enumerate(outs):
        if cut[i] is None:
            require(same_notes(got, exp), "%s: subscriber saw %s, expected %s", what, fmt_notes(got), fmt_notes(exp))
        else:
            require(len(got) == cut[i], "%s: %s delivered after disposal", what, fmt_notes(got[cut[i]:]))
            require(same_notes(got, exp[:len(got)]), "%s: subscriber saw %s, expected %s", what, fmt_notes(got), fmt_notes(exp))
    return len(exp) > 1 or any(c is not None for c in cut), ["rx", case["src"]["k"]] + ["cut:" + a for (a, _), c in zip(case["subs"], cut) if c is not None]


def run_fail(case):
    boom = Boom("subscribe")
    outs = [[] for _ in range(case["n"])]
    cut = [None] * case["n"]

    async def main(loop):
        p = Probe([], subscribe_exc=boom, subscribe_delay=case["sd"])
        bridged = to_observable(p)
        subs = [bridged.subscribe(**watch(o)) for o in outs]
        if case["disp"] is not None:
            await pause(case["disp"])
            cut[0] = len(outs[0])
            subs[0].dispose()
        await asyncio.sleep(5)
        await settle()

    run_case(main, what="to_observable")
    for got, c in zip(outs, cut):
        if c is None:
            require(same_notes(got, [("E", boom)]), "to_observable: a source that cannot be subscribed gave %s", fmt_notes(got))
        else:
            require(len(got) == c, "to_observable: %s delivered after disposal", fmt_notes(got))
    return True, ["fail"]


def run_back(case):
    ctx = Ctx()
    what = "to_async_iterable and back: " + describe(case["src"], case["ops"])
    recs = [Rec(delays=case["obs"]) for _ in range(case.get("n", 1))]

    async def main(loop):
        s = build_source(ctx, case["src"])
        for pos, op in enumerate(case["ops"]):
            s = build_op(ctx, pos, op)(s)
        it = rx.AsyncRx(s).to_async_iterable() if case["via"] == "chain" and hasattr(rx.AsyncRx, "to_async_iterable") else to_async_iterable(s)
        conv = to_async_observable or rx.from_async_iterable
        back = conv(it)
        for rec in recs:
            await back.subscribe_async(rec)
            await asyncio.sleep(case.get("gap", 0))
        await asyncio.sleep(600)

    run_case(main, what=what, horizon=1500)
    mctx = Ctx()
    mctx.booms = ctx.booms
    vs, term = model_pipeline(mctx, case["src"], case["ops"])
    exp = [("N", v) for v in vs] + ([term] if term else [])
    for rec in recs:
        require(same_notes(rec.notes, exp), "%s: saw %s, expected %s", what, fmt_notes(rec.notes), fmt_notes(exp))
        require(rec.overlap is None, "%s: overlapping delivery", what)
    return len(exp) > 1, ["back", case["src"]["k"], "subscribers:%d" % len(recs)]
