"""C14: subscriptions of one observable are independent of each other."""
from __future__ import annotations

import asyncio
import json

import aioreactive as rx
from hypothesis import strategies as st

from ..kit import many, Rec, Violation, fmt_note, fmt_notes, require, run_case, same, settle
from ..pipes import (ACC_OPS, FN_OPS, INNER_OPS, POS_OPS, TWO_OPS, Ctx, build_op, build_source, describe, instant_sync,
                     op_st, slow_probes, source_st)

COUNTS = {"quick": 27000, "thorough": 250000}
RULE = ("one random pipeline of 0-4 operators (every stateful operator included) over cold sources is subscribed by 2-4 "
        "observers at random offsets, some of which dispose early, are slow, or subscribe again after the first one ended; "
        "every observer must see the same notifications at the same relative times as an observer that has the pipeline "
        "to itself. Non-trivial: two subscriptions were active at the same time or one followed another, and at least one "
        "value was delivered to two observers.")
ASSUMPTIONS = ["notifications that fall on the same virtual instant may be ordered differently"]

ANY = FN_OPS + POS_OPS + ACC_OPS + INNER_OPS + TWO_OPS + ["zip_seq", "delay", "delay", "debounce", "retry", "ident", "merge_empty",
                                                         "mapi", "filteri", "skip", "take", "distinct", "scan"]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["s", "s", "s", "s", "s", "interval", "timer", "defer"]))
    if kind in ("s", "defer"):
        src = draw(source_st(max_len=6))
        src["defer"] = kind == "defer"
    else:
        src = {"k": kind, "s": [], "a": draw(st.sampled_from([0, 0.5, 1])), "p": draw(st.sampled_from([0.5, 1]))}
    ops = [draw(op_st(ANY, raising=draw(st.booleans()), tag=f"o{i}")) for i in range(draw(st.integers(0, 4)))]
    instant_sync([src, ops])
    draw(slow_probes([src, ops]))
    n = draw(many(2, 4, 10))
    subs = []
    for i in range(n):
        subs.append({"at": draw(st.sampled_from([0, 0, 0, 1, 2.5, 30])) + i * 2.0 ** -11,
                     "stop": draw(st.sampled_from([None, None, None, 0.6, 1.6, 3.1])),
                     "obs": draw(st.sampled_from([[], [], [], [0.25], [1.5, 0]]))})
    return {"src": src, "ops": ops, "subs": subs}


def build(case, ctx):
    src = case["src"]
    if src["k"] == "interval":
        s = rx.interval(src["a"], src["p"])
    elif src["k"] == "timer":
        s = rx.timer(src["a"])
    elif src.get("defer"):
        s = rx.defer(lambda: build_source(ctx, src))
    else:
        s = build_source(ctx, src)
    for pos, op in enumerate(case["ops"]):
        s = build_op(ctx, pos, op)(s)
    return s


LIFE = 25.0


def run(case, which, what):
    """Run the pipeline with the given subscribers; returns {i: events relative to its start}."""
    ctx = Ctx()
    recs = {i: Rec(delays=case["subs"][i]["obs"]) for i in which}
    starts = {}

    async def main(loop):
        s = build(case, ctx)

        async def one(i):
            spec = case["subs"][i]
            if spec["at"]:
                await asyncio.sleep(spec["at"])
            starts[i] = loop.time()
            sub = await s.subscribe_async(recs[i])
            stop = starts[i] + (spec["stop"] or LIFE)
            if stop > loop.time():
                await asyncio.sleep(stop - loop.time())
            await sub.dispose_async()

        await asyncio.gather(*(loop.create_task(one(i)) for i in which))
        await settle()

    run_case(main, what=what, horizon=3000)
    for r in recs.values():
        r.check(what)
    return ctx, {i: [(t - starts[i], n) for t, n in recs[i].events] for i in which}


def same_note(a, b, ca, cb):
    if a[0] != b[0]:
        return False
    if a[0] == "E":
        x, y = a[1], b[1]
        return type(x) is type(y) and getattr(x, "tag", str(x)) == getattr(y, "tag", str(y))
    return a[0] == "C" or same(a[1], b[1])


def agree(got, want, ca, cb):
    """Same notes; notes of one instant may be permuted (terminal last)."""
    if len(got) != len(want):
        return False
    g, w = list(got), list(want)
    i = 0
    while i < len(g):
        t = g[i][0]
        j = i
        while j < len(g) and abs(g[j][0] - t) < 1e-4:
            j += 1
        a, b = g[i:j], list(w[i:j])
        for tt, note in a:
            for m in b:
                if abs(m[0] - tt) < 1e-4 and same_note(note, m[1], ca, cb):
                    b.remove(m)
                    break
            else:
                return False
        i = j
    return True


def execute(case):
    what = describe(case["src"], case["ops"])
    n = len(case["subs"])
    ctx, shared = run(case, list(range(n)), what)
    solo_cache = {}
    for i in range(n):
        sp = case["subs"][i]
        key = json.dumps([sp["stop"], sp["obs"]])
        if key not in solo_cache:
            solo_cache[key] = run(case, [i], what + " alone")
        sctx, solo = solo_cache[key]
        want = list(solo.values())[0]
        if not agree(shared[i], want, ctx, sctx):
            raise Violation(f"{what}: subscriber {i} {sp} got {show(shared[i])}, alone it gets {show(want)}")
    both = sum(1 for i in range(n) if any(x[0] == "N" for _, x in shared[i])) >= 2
    return both, ["subs:%d" % n, case["src"]["k"]] + ["op:" + o[0] for o in case["ops"]] + \
        ["disposed-early"] * any(s["stop"] for s in case["subs"])


def show(ev):
    return "[" + ", ".join(f"{t:.2f}:{fmt_note(x)}" for t, x in ev[:16]) + "]"
