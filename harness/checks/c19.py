"""C19: delay shifts every notification by the given time and keeps order."""
from __future__ import annotations

import asyncio

import aioreactive as rx
from hypothesis import strategies as st

from ..kit import scale_st, scaled, many, Boom, Probe, Rec, fmt_notes, require, run_case, same_notes, settle, val
from ..pipes import LONG, idx_st
from ..simul import dur

COUNTS = {"quick": 42000, "thorough": 350000}
RULE = ("random timed sources (bursts and long gaps, ending in completion, an error or not at all) through one to three "
        "delay operators with random durations, observers with random delays, optional disposal and a second concurrent "
        "subscriber; every notification must start at source time plus delay, or as soon as the observer is free. "
        "Non-trivial: at least two notifications were in the delay line at the same time.")


@st.composite
def cases(draw):
    n = draw(many(0, 7, 50))
    s = [[draw(st.sampled_from([0, 0, 0.25, 0.5, 1, 3.5, -1])), "N", draw(idx_st())] for _ in range(n)]
    t = draw(st.sampled_from("CCEN"))
    if t != "N":
        s.append([draw(st.sampled_from([0, 0.5, 1, 5])), t, None])
    nd = draw(st.sampled_from([1, 1, 1, 2, 3]))
    c = {"s": s, "ds": [draw(st.sampled_from([0, 0.001, 0.1, 0.35, 1, 1.7, 2.25, 10])) for _ in range(nd)],
         "obs": draw(st.one_of(st.just([]), st.lists(st.sampled_from([0, 0.2, 0.6, 2, -2]), min_size=1, max_size=3))) if nd == 1 else [],
         "form": draw(st.sampled_from(["pipe", "method"])), "stop": draw(st.sampled_from([None, None, None, 0.7071, 2.7182])),
         "second": draw(st.sampled_from([None, None, 0, 0.3, 1.9])), "scale": draw(scale_st())}
    return c


def enumerate_cases(tier):
    base = {"obs": [], "form": "pipe", "stop": None, "second": None}
    for g, d in ((0, 1), (0.25, 10), (1, 0.25)):
        yield {**base, "s": [[g, "N", 100 + i] for i in range(LONG)] + [[1, "C", None]], "ds": [d]}


def execute(case):
    f = case.get("scale", 1)
    case = {**case, "s": [[scaled(g, f), k, x] for g, k, x in case["s"]]}
    for k in ("ds", "obs", "stop", "second"):
        case[k] = scaled(case[k], f)
    boom = Boom("src")
    script = [(g, k, val(x) if k == "N" else boom if k == "E" else None) for g, k, x in case["s"]]
    recs = [Rec(delays=case["obs"])]
    if case["second"] is not None:
        recs.append(Rec())
    starts = []

    async def main(loop):
        src = Probe(script)
        s = rx.AsyncRx(src) if case["form"] == "method" else src
        for d in case["ds"]:
            s = s.delay(d) if case["form"] == "method" else rx.pipe(s, rx.delay(d))
        starts.append(loop.time())
        sub = await s.subscribe_async(recs[0])

        async def other():
            await asyncio.sleep(case["second"])
            starts.append(loop.time())
            await s.subscribe_async(recs[1])

        if case["second"] is not None:
            loop.create_task(other())
        if case["stop"] is not None:
            await asyncio.sleep(case["stop"])
            await sub.dispose_async()
        await settle()

    run_case(main, what="delay")
    inflight = 0
    for i, r in enumerate(recs):
        total = sum(case["ds"])
        t, want, free = 0.0, [], 0.0
        due_last = []
        for g, k, x in script:
            t += dur(g)
            due = t + total
            begin = max(due, free)
            note = ("N", x) if k == "N" else ("E", x) if k == "E" else ("C",)
            d = r.delays[len(want) % len(r.delays)] if r.delays else 0
            free = begin + dur(d)
            want.append((begin, note))
            due_last.append((t, due))
            if k != "N":
                break
        stop = case["stop"] if i == 0 else None
        if stop is not None:
            want = [w for w in want if w[0] < stop]
        require(same_notes(r.notes, [n for _, n in want]), "delay%s: got %s, expected %s", case["ds"], fmt_notes(r.notes), fmt_notes([n for _, n in want]))
        for (a, n), (b, _) in zip(r.events, want):
            require(abs(a - starts[i] - b) < 1e-4, "delay%s: %s started at %s, expected at %s", case["ds"], n, a - starts[i], b)
        inflight += sum(1 for j in range(1, len(due_last)) if due_last[j][0] < due_last[j - 1][1])
    return inflight > 0, ["delays:%d" % len(case["ds"])] + ["slow"] * bool(case["obs"]) + ["disposed"] * (case["stop"] is not None) + \
        ["shared"] * (case["second"] is not None)
