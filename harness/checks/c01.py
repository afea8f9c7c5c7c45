"""C01: the Rx grammar holds for every observer of every pipeline."""
from __future__ import annotations

import asyncio

from hypothesis import strategies as st

from ..kit import Boom, Rec, pause, run_case, settle
from ..pipes import (ACC_OPS, FN_OPS, GUARD_OPS, INNER_OPS, POS_OPS, TWO_OPS, Ctx, build_pipeline, describe, idx_st,
                     obs_delays_st, op_st, slow_probes, source_st)

COUNTS = {"quick": 48000, "thorough": 400000}
RULE = ("random pipelines of 1-4 operators (all element-wise, positional, accumulating, flattening, combining, timing "
        "and error-handling operators) over well-behaved sources, or over sources that ignore disposal and emit "
        "values and further terminal notifications after a terminal directly below an operator that guards the "
        "grammar; observers are fast, slow or raise, subscriptions may be disposed from outside or from inside a "
        "callback. Non-trivial: the observer got a terminal notification and a source misbehaved, or several "
        "sources took part, or the observer raised.")
ASSUMPTIONS = ["operators that hand every notification straight through (map, filter, scan, catch, delay, ...) keep "
               "the grammar for sources that keep it; the others keep it for every source"]

ANY = FN_OPS + POS_OPS + ACC_OPS + INNER_OPS * 2 + TWO_OPS * 2 + ["zip_seq", "delay", "debounce", "retry", "ident", "merge_empty"]
GUARDS = [g for g in GUARD_OPS if g not in ("catch",)]


@st.composite
def bad_script(draw, tag):
    out = []
    for _ in range(draw(st.integers(1, 9))):
        k = draw(st.sampled_from("NNNNCE"))
        out.append([draw(st.sampled_from([0, 0, -1, -3, 0.5, 1])), k,
                    draw(idx_st()) if k == "N" else tag if k == "E" else None])
    return out


@st.composite
def bad_source(draw, tag):
    return {"k": draw(st.sampled_from(["task", "task", "sync"])), "s": draw(bad_script(tag)), "bad": 1,
            "deaf": draw(st.integers(0, 1))}


def spoil(draw, op, tag):
    """Give the guarding operator misbehaving other/inner sources too."""
    p = op[1]
    if "src" in p and draw(st.booleans()):
        p["src"] = draw(bad_source(tag))
    if "inners" in p and draw(st.booleans()):
        p["inners"] = [draw(bad_source(f"{tag}{i}")) for i in range(len(p["inners"]))]


@st.composite
def cases(draw):
    bad = draw(st.booleans())
    if bad:
        src = draw(bad_source("src"))
        op = draw(op_st(GUARDS, tag="g"))
        spoil(draw, op, "g")
        ops = [op] + [draw(op_st(ANY, tag=f"o{i}")) for i in range(draw(st.integers(0, 2)))]
    else:
        src = draw(source_st(max_len=6))
        ops = [draw(op_st(ANY, tag=f"o{i}")) for i in range(draw(st.integers(1, 4)))]
    draw(slow_probes([src, ops]))
    act = draw(st.sampled_from(["none", "none", "none", "raise", "raise", "dispose", "dispose-in"]))
    return {"src": src, "ops": ops, "obs": draw(obs_delays_st()), "act": act, "k": draw(st.integers(0, 4)),
            "t": draw(st.sampled_from([0, -1, -2, -4, 0.6, 1.3, 2.6]))}


def execute(case):
    ctx = Ctx()
    box = {}

    async def hook(k, note):
        if case["act"] == "dispose-in" and k == case["k"] and "sub" in box:
            await box["sub"].dispose_async()

    raising = case["act"] == "raise"
    rec = Rec(delays=case["obs"], hook=hook, raise_at=case["k"] if raising else None, raise_exc=Boom("obs"))

    async def main(loop):
        s = build_pipeline(ctx, case["src"], case["ops"])
        try:
            box["sub"] = await s.subscribe_async(rec)
        except Boom:
            if not raising:  # only an observer's own error may come back to a synchronously emitting source
                raise
            return
        if case["act"] == "dispose":
            await pause(case["t"])
            await box["sub"].dispose_async()
        await asyncio.sleep(400)
        await settle()

    run_case(main, what=describe(case["src"], case["ops"]))
    rec.check(describe(case["src"], case["ops"]))
    bad = bool(case["src"].get("bad"))
    raised = raising and len(rec.values) > case["k"]
    multi = any(o[0] in INNER_OPS or o[0] in TWO_OPS for o in case["ops"])
    return rec.term is not None and (bad or multi or raised), \
        [case["act"], f"end:{rec.term[0] if rec.term else None}"] + ["bad-source"] * bad + ["op:" + o[0] for o in case["ops"]]
