"""C21: interval and timer."""
from __future__ import annotations

import asyncio

import aioreactive as rx
from hypothesis import strategies as st

from ..kit import scale_st, scaled, Boom, Rec, fmt_notes, require, run_case, settle
from ..simul import dur
from ..pipes import LONG

COUNTS = {"quick": 42000, "thorough": 350000}
RULE = ("interval(first, period) and timer(due) with random times, one to three subscribers at random offsets, fast, slow "
        "or raising observers, disposed at a random time, from inside a callback, or cut off by take; exact values and "
        "virtual times. Non-trivial: at least two ticks or a completed timer, and an observer that is slow, raises, or is "
        "not alone.")


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["interval", "interval", "timer", "once"]))
    subs = []
    for _ in range(draw(st.integers(1, 3))):
        subs.append({"at": draw(st.sampled_from([0, 0, 0.7, 3.1])), "obs": draw(st.sampled_from([[], [], [0.2], [1.5, 0], [-1], [3]])),
                     "stop": draw(st.sampled_from([5.31415, 12.71, 30.4142, 99.7071, "in0", "in1", "in3"])),
                     "ra": draw(st.sampled_from([None, None, None, 0, 1, 2])), "take": draw(st.sampled_from([None, None, None, 1, 3, 40]))})
    return {"kind": kind, "a": draw(st.sampled_from([0, 0.1, 0.5, 1, 2.5, 7])), "p": draw(st.sampled_from([0.1, 0.5, 1, 1.5, 4])), "subs": subs,
            "scale": draw(scale_st())}


def enumerate_cases(tier):
    for ra, take in ((None, None), (None, LONG)):
        yield {"kind": "interval", "a": 0.5, "p": 0.1,
               "subs": [{"at": 0, "obs": [], "stop": LONG * 0.1 + 3.7071, "ra": ra, "take": take}]}


def execute(case):
    f = case.get("scale", 1)
    kind, a, p = case["kind"], scaled(case["a"], f), scaled(case["p"], f)
    case = {**case, "subs": [{**x, **{k: scaled(x[k], f) for k in ("at", "obs", "stop")}} for x in case["subs"]]}
    runs = []
    boom = Boom("obs")

    async def main(loop):
        s = rx.interval(a, p) if kind == "interval" else rx.timer(a) if kind == "timer" else rx.interval(a, 0)

        async def one(spec):
            box = {}
            await asyncio.sleep(spec["at"])

            async def hook(k, note):
                if spec["stop"] == f"in{k}" and note[0] == "N":
                    box["at"] = loop.time()
                    await box["sub"].dispose_async()

            rec = Rec(delays=spec["obs"], hook=hook, raise_at=spec["ra"], raise_exc=boom)
            runs.append((spec, rec, loop.time(), box))
            q = rx.take(spec["take"])(s) if spec["take"] else s
            box["sub"] = await q.subscribe_async(rec)
            if not isinstance(spec["stop"], str):
                await asyncio.sleep(spec["stop"])
                box["at"] = loop.time()
                await box["sub"].dispose_async()
            else:
                await asyncio.sleep(60 * f)
                box.setdefault("at", loop.time())
                await box["sub"].dispose_async()

        await asyncio.gather(*(loop.create_task(one(x)) for x in case["subs"]))
        await settle()

    loop, _ = run_case(main, what=kind, horizon=1000 * max(f, 1))
    require(not loop.pending_timers, "%s: still ticking after every subscription was disposed", kind)
    nt = 0
    for spec, rec, t0, box in runs:
        rec.check(kind)
        stop = box["at"] - t0
        # reference
        t, k, want = a, 0, []
        queued = spec["take"] is not None  # take puts a queue between interval and observer
        free = 0.0
        while True:
            begin = max(t, free)
            if queued and k >= spec["take"]:
                want.append((max(want[-1][0] if want else 0, free), ("C",)))
                break
            if begin >= stop - 1e-9 and not (isinstance(spec["stop"], str) and spec["stop"] == f"in{k}"):
                break
            want.append((begin, ("N", k)))
            end = begin + dur(spec["obs"][k % len(spec["obs"])] if spec["obs"] else 0)
            if spec["stop"] == f"in{k}":
                break
            if spec["ra"] == k:
                want.append((end, ("E", boom)))
                break
            free = end
            if kind != "interval":
                want.append((free if not queued else free, ("C",)))
                break
            t = (t if queued else end) + p
            k += 1
        want = [w for w in want if w[0] < stop + 1e-9]
        if isinstance(spec["stop"], str) is False:
            want = [w for w in want if w[0] < stop - 1e-9 or abs(w[0] - stop) < 1e-9 and False]
        got = [(t_ - t0, n) for t_, n in rec.events]
        ok = len(got) == len(want) and all(x[1][0] == y[1][0] and (x[1][0] == "C" or x[1][1] is y[1][1] or x[1][1] == y[1][1])
                                           and abs(x[0] - y[0]) < 1e-4 for x, y in zip(got, want))
        require(ok, "%s(%s,%s) subscriber %s: got %s, expected %s", kind, a, p, spec, got[:12], want[:12])
        require(all(type(n[1]) is int for _, n in got if n[0] == "N"), "ticks are not integers")
        nt += (len(rec.values) > 1 or rec.term is not None) and (bool(spec["obs"]) or spec["ra"] is not None or len(runs) > 1)
    return nt > 0, [kind, "subs:%d" % len(runs)] + ["take"] * any(s["take"] for s in case["subs"]) + ["raises"] * any(s["ra"] is not None for s in case["subs"])
