"""C05: scan and reduce fold the source."""
from __future__ import annotations

from hypothesis import strategies as st

from ..kit import Violation, fmt_notes, require, same, same_notes, trace_notes
from ..pipes import long_op, long_source, ACC_OPS, Ctx, describe, model_op, obs_delays_st, op_st, run_pipeline, script_trace, source_st, warm_st

COUNTS = {"quick": 42000, "thorough": 350000}
RULE = ("random source (7 kinds, odd values, gaps, completing, failing or never ending) through scan, scan_async, reduce or "
        "reduce_async with a pseudo-random accumulator that may raise, odd initial states and possibly slow observers, sometimes "
        "after an earlier subscription of the same pipeline; compared with a left fold, including the accumulator's call history and release of the source after an "
        "accumulator error. Non-trivial: at least two source values.")


def cases():
    return st.fixed_dictionaries({
        "src": source_st(max_len=8, long=1500),
        "ops": st.lists(op_st(ACC_OPS), min_size=1, max_size=2),
        "obs": obs_delays_st(),
        "warm": warm_st(),
    })


def enumerate_cases(tier):
    for name in ACC_OPS:
        for kind in ("task", "iter"):
            yield {"src": long_source(kind=kind), "ops": [long_op(name)], "obs": [], "warm": 0}


def execute(case):
    if len(case["src"]["s"]) > 40:
        case["obs"] = []
    ctx, rec = run_pipeline(case)
    mctx = Ctx()
    mctx.booms = ctx.booms
    # reduce of an empty completed source is unspecified: nothing, or the initial state
    traces = [script_trace(ctx, case["src"]["s"])]
    from ..kit import val
    for pos, op in enumerate(case["ops"]):
        nxt = []
        for vs, term in traces:
            out = model_op(mctx, pos, op)(vs, term)
            nxt.append(out)
            if op[0].startswith("reduce") and not vs and term == ("C",):
                nxt.append(([val(op[1]["init"])], term))
        traces = nxt
    wants = [trace_notes(*t) for t in traces]
    if not any(same_notes(rec.notes, w) for w in wants):
        raise Violation(f"{describe(case['src'], case['ops'])}: got {fmt_notes(rec.notes)}, expected {fmt_notes(wants[0])}")
    term = traces[0][1]
    if len(case["ops"]) == 1:
        got = [a for pos, a in ctx.calls if pos == 0]
        exp = [a for pos, a in mctx.calls if pos == 0]
        require(len(got) == len(exp) and all(same(tuple(g), tuple(w)) for g, w in zip(got, exp)),
                "%s: accumulator calls %r, expected %r", case["ops"][0][0], got[:10], exp[:10])
    if term is not None:
        left = [p for p in ctx.probes if p.attached]
        require(not left, "%s: source still subscribed after %s", describe(case["src"], case["ops"]), term[0])
    n = sum(1 for x in case["src"]["s"] if x[1] == "N")
    labels = [o[0] for o in case["ops"]] + ["src:" + case["src"]["k"], "warm:%d" % case.get("warm", 0), f"term:{term[0] if term else None}"]
    if term is not None and term[0] == "E" and getattr(term[1], "tag", "").startswith("f"):
        labels.append("accumulator-error")
    return n >= 2, labels
