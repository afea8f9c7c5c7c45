"""C03: element-wise operators agree with the list model."""
from __future__ import annotations

from hypothesis import strategies as st

from ..kit import Violation, require, same
from ..pipes import long_op, long_source, FN_OPS, describe, expect_notes, obs_delays_st, op_st, run_pipeline, source_st, warm_st

COUNTS = {"quick": 48000, "thorough": 400000}
RULE = ("random source (7 kinds of cold source, 0-8 odd values, sometimes thousands, random gaps, completing, failing "
        "or never ending) through 1-3 random element-wise operators with pseudo-random user functions that may raise, "
        "and a possibly slow observer, sometimes after an earlier subscription of the same pipeline; compared with the list model. Non-trivial: at least two source values.")


def cases():
    return st.fixed_dictionaries({
        "src": source_st(max_len=8, long=1500),
        "ops": st.lists(op_st(FN_OPS), min_size=1, max_size=3),
        "obs": obs_delays_st(),
        "warm": warm_st(),
    }).map(_trim)


def _trim(c):
    if len(c["src"]["s"]) > 40:
        c["obs"] = []
        c["ops"] = c["ops"][:1]
    return c


def enumerate_cases(tier):
    for name in FN_OPS:
        for kind in ("task", "iter"):
            yield {"src": long_source(kind=kind), "ops": [long_op(name)], "obs": [], "warm": 0}


def execute(case):
    ctx, rec = run_pipeline(case)
    vs, term, mctx = expect_notes(rec, ctx, case)
    # the first user function sees every source value exactly once and in order
    first = [a for pos, a in ctx.calls if pos == 0]
    want = [a for pos, a in mctx.calls if pos == 0]
    failed = term is not None and term[0] == "E"
    require(len(first) <= len(want) if failed else len(first) == len(want),
            "%s: user function called %d times, expected %d", describe(case["src"], case["ops"]), len(first), len(want))
    for g, w in zip(first, want):
        if not same(tuple(g), tuple(w)):
            raise Violation(f"user function called with {g!r}, expected {w!r}")
    n = sum(1 for x in case["src"]["s"] if x[1] == "N")
    labels = [o[0] for o in case["ops"]] + ["src:" + case["src"]["k"], "warm:%d" % case.get("warm", 0), f"term:{term[0] if term else None}"]
    if any(o[1].get("rz") for o in case["ops"]):
        labels.append("raising-fn")
    if n > 40:
        labels.append("long")
    return n >= 2, labels
