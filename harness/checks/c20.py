"""C20: debounce lets a value through only after a quiet period."""
from __future__ import annotations

import asyncio

import aioreactive as rx
from hypothesis import strategies as st

from ..kit import scale_st, scaled, many, Boom, Probe, Rec, fmt_notes, require, run_case, same_notes, settle, val
from ..pipes import LONG, idx_st
from ..simul import dur

COUNTS = {"quick": 42000, "thorough": 350000}
RULE = ("random timed sources through debounce with a random quiet period: bursts at one instant, gaps below, above and "
        "equal to the period, ending in completion, an error or not at all; fast and slow observers; optional disposal. A "
        "value comes out exactly one period after it was sent iff no other value followed within the period (either "
        "outcome when one follows exactly at its end). Non-trivial: at least one value suppressed and one delivered.")


@st.composite
def cases(draw):
    n = draw(many(0, 8, 40))
    d = draw(st.sampled_from([0.3, 0.5, 0.75, 1, 1.2, 2.1, 5]))
    s = [[draw(st.sampled_from([0, 0, 0.25, 0.5, 1, 2, 3.5, d, d / 2])), "N", draw(idx_st())] for _ in range(n)]
    t = draw(st.sampled_from("CCENN"))
    if t != "N":
        s.append([draw(st.sampled_from([0, 0.25, 0.5, 1, 3, 7])), t, None])
    return {"s": s, "d": d, "obs": draw(st.sampled_from([[], [], [], [0.2], [1.5, 0], [-2]])), "form": draw(st.sampled_from(["pipe", "method"])),
            "stop": draw(st.sampled_from([None, None, None, 0.7071, 2.7182, 4.4142])), "second": draw(st.integers(0, 3)) == 0, "scale": draw(scale_st())}


def enumerate_cases(tier):
    base = {"obs": [], "form": "pipe", "stop": None, "second": False}
    for g in (0, 0.25, 2):
        yield {**base, "s": [[g, "N", 100 + i] for i in range(LONG)] + [[3, "C", None]], "d": 1}


def execute(case):
    f = case.get("scale", 1)
    case = {**case, "s": [[scaled(g, f), k, x] for g, k, x in case["s"]]}
    for k in ("d", "obs", "stop"):
        case[k] = scaled(case[k], f)
    boom = Boom("src")
    script = [(g, k, val(x) if k == "N" else boom if k == "E" else None) for g, k, x in case["s"]]
    recs = [Rec(delays=case["obs"])] + ([Rec()] if case["second"] else [])
    d = case["d"]

    async def main(loop):
        src = Probe(script)
        s = rx.AsyncRx(src).debounce(d) if case["form"] == "method" else rx.pipe(src, rx.debounce(d))
        sub = await s.subscribe_async(recs[0])
        if case["second"]:
            await s.subscribe_async(recs[1])
        if case["stop"] is not None:
            await asyncio.sleep(case["stop"])
            await sub.dispose_async()
        await settle()

    run_case(main, what="debounce")
    t, vs, end = 0.0, [], None
    for g, k, x in script:
        t += dur(g)
        if k == "N":
            vs.append((t, x))
        else:
            end = (t, ("E", boom) if k == "E" else ("C",))
            break
    n_sup = n_del = 0
    for i, r in enumerate(recs):
        stop = case["stop"] if i == 0 else None
        lim = min(end[0] if end else float("inf"), stop if stop is not None else float("inf"))
        # (time, note, must): what may come out
        items = []
        for j, (ts, x) in enumerate(vs):
            nxt = vs[j + 1][0] if j + 1 < len(vs) else float("inf")
            due = ts + d
            if abs(nxt - due) < 1e-9 or nxt > due:
                must = nxt > due + 1e-9
                if due < lim - 1e-9:
                    items.append((due, ("N", x), must))
                elif stop is not None and stop <= lim:
                    pass
                elif due <= lim + 1e-9:
                    items.append((due, ("N", x), False))
                elif j + 1 == len(vs) and end is not None and end[1][0] == "C":
                    items.append((end[0], ("N", x), False))  # flushing the pending value at completion is fine too
        if end is not None and not (stop is not None and stop < end[0]):
            items.append((end[0], end[1], True))
        notes = r.notes
        pos = 0
        matched = []
        ok = True
        for item in items:
            if pos < len(notes) and same_notes([notes[pos]], [item[1]]) and (
                    r.delays or abs(r.events[pos][0] - item[0]) < 1e-4):
                matched.append(item)
                pos += 1
            elif item[2]:
                ok = False
                break
        if not ok or pos != len(notes):
            # greedy matching can be wrong when equal values are optional: search properly
            ok = search(items, r, 0, 0)
        if r.delays and stop is not None and not ok:
            ok = search_prefix(items, r)
        require(ok, "debounce(%s): source %s, got %s, expected %s", d, case["s"], [(round(a, 3), b) for a, b in r.events],
                [(round(a, 3), b, "must" if m else "may") for a, b, m in items])
        n_del += len(r.values)
        n_sup += len(vs) - len(r.values)
    return n_sup > 0 and n_del > 0, [case["form"], "end:" + (end[1][0] if end else "none")] + ["slow"] * bool(case["obs"]) + \
        ["disposed"] * (case["stop"] is not None)


def search(items, r, i, pos):
    if i == len(items):
        return pos == len(r.events)
    t, note, must = items[i]
    if pos < len(r.events) and same_notes([r.events[pos][1]], [note]) and (r.delays or abs(r.events[pos][0] - t) < 1e-4):
        if search(items, r, i + 1, pos + 1):
            return True
    return not must and search(items, r, i + 1, pos)


def search_prefix(items, r):
    """A slow observer that is disposed may not have been reached by the last notifications."""
    return any(search(items[:k], r, 0, 0) for k in range(len(items) + 1))
