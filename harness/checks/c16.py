"""C16: AsyncSingleSubject holds producers until there is an observer, loses and duplicates nothing."""
from __future__ import annotations

import asyncio

import aioreactive as rx
from expression.system import ObjectDisposedException
from hypothesis import strategies as st

from ..kit import many, Boom, Rec, fmt_notes, pause, require, run_case, same_notes, settle, val

COUNTS = {"quick": 54000, "thorough": 400000}
RULE = ("several concurrent producer tasks send, throw or close on one AsyncSingleSubject at random times, some are "
        "cancelled while they wait, the observer (fast or slow) subscribes at a random time or never, and the "
        "subscription or the subject is disposed at a random time or never. Compared with a model: producers wait for the "
        "observer, are delivered exactly once in order, nothing follows a terminal, a disposed subject refuses. "
        "Non-trivial: a producer waited for the observer, was cancelled or was refused.")


@st.composite
def cases(draw):
    n = draw(many(1, 8, 30))
    prods, t = [], 0.0
    for i in range(n):
        t += draw(st.sampled_from([0, 0, 1, 1, 2]))
        k = draw(st.sampled_from("NNNNNNCE"))
        prods.append({"t": t, "k": k, "v": draw(st.integers(0, 26)), "cancel": draw(st.sampled_from([None, None, None, 0.25, 1.25]))})
    return {"prods": prods, "sub": draw(st.sampled_from([None, 0.5, 0.5, 1.5, 2.5, 4.5])),
            "dispose": draw(st.sampled_from([None, None, None, 0.75, 1.75, 3.75, 6.75])), "how": draw(st.sampled_from(["sub", "subject"])),
            "d": draw(st.sampled_from([0, 0, 0, -1, 0.125])), "cls": draw(st.sampled_from(["plain", "plain", "test"])),
            "cb": draw(st.booleans())}


def execute(case):
    rec = Rec(delays=[case["d"]] if case["d"] else None)
    err = Boom("e")
    results = {}
    tasks = []

    async def main(loop):
        if case["cls"] == "test":
            from aioreactive.testing import AsyncTestSingleSubject
            subject = AsyncTestSingleSubject()
        else:
            subject = rx.AsyncSingleSubject()
        box = {}

        async def produce(i, p):
            if p["t"]:
                await asyncio.sleep(p["t"])
            try:
                if p["k"] == "N":
                    await subject.asend(val(p["v"]))
                elif p["k"] == "E":
                    await subject.athrow(err)
                else:
                    await subject.aclose()
                results[i] = ("ok", loop.time())
            except ObjectDisposedException:
                results[i] = ("refused", loop.time())
            except asyncio.CancelledError:
                results[i] = ("cancelled", loop.time())
                raise

        async def canceller(i, p):
            await asyncio.sleep(p["t"] + p["cancel"])
            tasks[i].cancel()

        for i, p in enumerate(case["prods"]):
            tasks.append(loop.create_task(produce(i, p)))
        for i, p in enumerate(case["prods"]):
            if p["cancel"] is not None:
                loop.create_task(canceller(i, p))

        async def subscriber():
            if case["sub"] is None:
                return
            await asyncio.sleep(case["sub"])
            try:
                if case["cb"]:
                    box["sub"] = await subject.subscribe_async(rec.asend, rec.athrow, rec.aclose)
                else:
                    box["sub"] = await subject.subscribe_async(rec)
            except ObjectDisposedException:
                box["refused"] = True

        loop.create_task(subscriber())
        if case["dispose"] is not None:
            await asyncio.sleep(case["dispose"])
            if case["how"] == "sub" and "sub" in box:
                await box["sub"].dispose_async()
                box["disposed"] = True
            elif case["how"] == "subject":
                await subject.dispose_async()
                box["disposed"] = True
        await asyncio.sleep(400)
        await settle()
        box["results"] = dict(results)
        return box

    _, box = run_case(main, what="AsyncSingleSubject")
    rec.check("single subject")
    INF = float("inf")
    td = case["dispose"] if box.get("disposed") else INF
    ts = case["sub"] if case["sub"] is not None and case["sub"] < td else INF
    if case["sub"] is not None and case["sub"] > td:
        require(box.get("refused"), "subscribing to a disposed subject did not raise")
    # when each producer's notification takes effect
    eff = []
    waited = 0
    for i, p in enumerate(case["prods"]):
        tc = p["t"] + p["cancel"] if p["cancel"] is not None else INF
        at = max(p["t"], ts)
        if p["t"] > td:
            want = "refused"
        elif at < INF and at < td and at < tc:
            want = "deliver"
        elif tc < min(td, at):
            want = "cancelled"
        elif td < INF:
            want = "refused"
        else:
            want = "pending"
        waited += want != "deliver" or p["t"] < ts
        eff.append((want, at, i))
    order = sorted((at, i) for w, at, i in eff if w == "deliver")
    want_notes, stop = [], False
    for _at, i in order:
        p = case["prods"][i]
        if stop:
            break
        want_notes.append(("N", val(p["v"])) if p["k"] == "N" else ("E", err) if p["k"] == "E" else ("C",))
        stop = p["k"] != "N"
    require(same_notes(rec.notes, want_notes), "observer got %s, expected %s", fmt_notes(rec.notes), fmt_notes(want_notes))
    for want, at, i in eff:
        got = box["results"].get(i, ("pending", None))
        if want == "deliver":
            # may be cancelled while the (slow) observer handles it
            require(got[0] == "ok" or (got[0] == "cancelled" and case["d"] > 0), "producer %d ended %s, expected to deliver", i, got)
            if got[0] == "ok":
                require(at - 1e-6 <= got[1] <= at + 0.125 + 1e-6, "producer %d returned at %s, expected about %s", i, got[1], at)
        else:
            require(got[0] == want, "producer %d ended %s, expected %s", i, got, want)
            if want == "refused":
                require(abs(got[1] - max(case["prods"][i]["t"], td)) < 1e-6, "producer %d was refused at %s", i, got[1])
    for t, _n in rec.events:
        require(t >= ts - 1e-6 and t <= td + 1e-6, "delivered at %s outside of the subscription [%s, %s]", t, ts, td)
    return waited > 0, ["sub" if ts < INF else "no-sub", "dispose:" + (case["how"] if td < INF else "no")] + \
        sorted({w for w, _, _ in eff})
