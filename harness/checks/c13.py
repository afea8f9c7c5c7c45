"""C13: when a sequence terminates, everything upstream is released."""
from __future__ import annotations

import asyncio
import json

import aioreactive as rx
from hypothesis import strategies as st

from ..kit import Boom, Probe, Rec, Violation, fmt_notes, require, run_case, settle
from ..pipes import (ACC_OPS, FN_OPS, INNER_OPS, POS_OPS, TWO_OPS, Ctx, build_op, build_source, describe, instant_sync, is_slow,
                     obs_delays_st, op_st, slow_probes, source_st)

COUNTS = {"quick": 48000, "thorough": 400000}
RULE = ("random pipelines of 1-4 operators over sources most of which never terminate by themselves (scripts without a "
        "terminal, unbounded interval), ended by take, take_until, slicing, zipping, an error in a user function, in "
        "another or an inner source, in a subscription or in the observer. Once the observer got its terminal "
        "notification every source must have been unsubscribed at that same instant and nothing time-driven may go on. "
        "Non-trivial: a source that had not ended by itself was released.")

ANY = (FN_OPS + POS_OPS + ACC_OPS + INNER_OPS * 2 + TWO_OPS * 2
       + ["take", "take", "take_until", "take_until", "zip_seq", "zip_seq", "delay", "debounce", "retry", "ident", "merge_empty",
          "getitem", "scan"])


@st.composite
def cases(draw):
    kw = {"max_len": 5, "terms": draw(st.sampled_from(["N", "NNC", "NNNE", "CEN"]))}
    kind = draw(st.sampled_from(["s", "s", "s", "interval"]))
    if kind == "s":
        src = draw(source_st(**kw, kinds=["task", "task", "task", "sync", "aiter", "subj", "iter"]))
        if draw(st.integers(0, 11)) == 0:  # an awaitable
            src = {"k": "coro", "s": draw(st.sampled_from([[], [[2, "N", 1]], [[50, "N", 1]], [[5, "E", "src"]]]))}
    else:
        src = {"k": "interval", "s": [], "a": draw(st.sampled_from([0, 0.5])), "p": draw(st.sampled_from([0.5, 1]))}
    ops = [draw(op_st(ANY, tag=f"o{i}", src_kw={**kw, "kinds": ["task", "task", "sync", "aiter"]}))
           for i in range(draw(st.integers(1, 4)))]
    instant_sync([src, ops])
    if src["k"] != "interval":  # not forever more inner sequences, each slow to come and go
        draw(slow_probes([src, ops]))
    raising = draw(st.integers(0, 4)) == 0
    return {"src": src, "ops": ops, "obs": draw(obs_delays_st()), "ra": draw(st.integers(0, 3)) if raising else None,
            "rt": draw(st.integers(0, 7)) == 0}



def execute(case):
    what = describe(case["src"], case["ops"])
    ctx = Ctx()
    live = []

    class Ending(Rec):
        soon = timers = ()

        def look(self):
            self.timers = asyncio.get_running_loop().library_timers()
            self.soon = [it.waiting for it in ctx.iters]

        async def _on(self, note):
            if note[0] != "N":
                asyncio.get_running_loop().call_later(0.01, self.look)
            await super()._on(note)

    rec = Ending(delays=case["obs"], raise_at=case["ra"], raise_exc=Boom("obs"),
              raise_term=Boom("term") if case.get("rt") else None)

    async def main(loop):
        loop.track = True
        src = case["src"]
        s = rx.interval(src["a"], src["p"]) if src["k"] == "interval" else build_source(ctx, src)
        for pos, op in enumerate(case["ops"]):
            s = build_op(ctx, pos, op)(s)
        try:
            sub = await s.subscribe_async(rec)
        except Boom:
            if case["ra"] is None and not case.get("rt"):
                raise
            return None
        await asyncio.sleep(60.7071 if src["k"] == "interval" else 600.7071)
        live.extend(it.waiting for it in ctx.iters)
        return sub

    loop, sub = run_case(main, what=what, horizon=90 if case["src"]["k"] == "interval" else 1500)
    if not case.get("rt"):
        rec.check(what)
    elif rec.term is not None and rec.notes[-1] is not rec.term:
        return False, ["failed twice"]
    if rec.term is None:
        return False, ["open"]
    end, _ = rec.events[-1]
    if end > (45 if case["src"]["k"] == "interval" else 500):
        return False, ["open"]  # too late to tell what goes on afterwards
    has_sync = is_slow([case["src"], case["ops"]]) or '"k": "sync"' in json.dumps([case["src"], case["ops"]])
    released = 0
    # a failing accumulator lets the observer handle the error before it releases the source
    folds = any(o[0].startswith(("scan", "reduce")) for o in case["ops"])
    if folds and case.get("rt"):
        return False, ["fold"]
    for p in ctx.probes:
        for s in p.subs:
            if s.ended and not s.disposed:
                continue
            if s.attached:
                raise Violation(f"{what}: a source is still subscribed although the sequence ended at {end}: "
                                f"{fmt_notes(rec.notes)}")
            if not has_sync:
                limit = end
                if folds and case["obs"]:
                    limit += max(0, case["obs"][(len(rec.events) - 1) % len(case["obs"])])
                require(s.disposed_at <= limit + 1e-6, "%s: source released at %s, sequence ended at %s", what, s.disposed_at, end)
            released += not s.ended
    if not has_sync and not folds:
        require(not any(rec.soon), "%s: an async iterable or awaitable is still waited for although the sequence ended at %s: %s", what,
                end, fmt_notes(rec.notes))
        require(not rec.timers, "%s: a timer for %s is still running although the sequence ended at %s", what, rec.timers, end)
    require(not any(live), "%s: an async iterable is still being pulled although the sequence ended at %s: %s", what, end,
            fmt_notes(rec.notes))
    require(not loop.pending_timers, "%s: something time-driven still runs at %s although the sequence ended at %s: %s",
            what, loop.time(), end, fmt_notes(rec.notes))
    if case["src"]["k"] == "interval" and rec.term:
        released += 1
    return released > 0, [f"end:{rec.term[0]}"] + ["op:" + o[0] for o in case["ops"]] + ["observer-raises"] * (case["ra"] is not None) + ["terminal-raises"] * bool(case.get("rt"))
