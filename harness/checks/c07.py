"""C07: concat family."""
from __future__ import annotations

from ..kit import fmt_notes, require, same_notes
from .c06 import cases_, judge, many_inners, run_setup
from ..pipes import LONG

COUNTS = {"quick": 36000, "thorough": 300000}
RULE = ("random timed sequences (completing, failing, never ending, failing to subscribe) through concat, concat_seq and "
        "concat_map; values, order, terminal and subscription instants compared with a discrete-event simulation. "
        "Non-trivial: at least two sequences with values.")


def cases():
    return cases_(forms=("concat", "concat_seq", "concat_map", "method_concat"))


def enumerate_cases(tier):
    for form in ("concat_seq", "concat_map"):
        for g in (0, 1):
            yield many_inners(form, LONG, g=g)


def execute(case):
    setup, rec = run_setup(case)
    judge(setup, rec)
    sim = setup.sim
    end = sim["end"]
    want = [("N", setup.value(i, k)) for t, i, k, _ in sim["emits"] if not (end and end[1] == "E" and t > end[0])]
    # only one inner is active, so everything but a concurrent outer error is totally ordered
    if end is None or end[1] == "C" or end[2] != {"outer"} and "outer" not in end[2]:
        if end is not None:
            want.append(rec.term)  # terminal already judged
        require(same_notes(rec.notes, want), "%s: got %s, expected %s", case["form"], fmt_notes(rec.notes), fmt_notes(want))
    vals = sum(1 for s in case["inners"] if isinstance(s, list) and any(x[1] == "N" for x in s))
    return vals >= 2, [case["form"], f"end:{end[1] if end else None}"] + (["slow-observer"] if case["obs"] else [])
