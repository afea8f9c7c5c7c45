"""C15: AsyncSubject delivers to exactly the current subscribers (stateful model)."""
from __future__ import annotations

import asyncio

import aioreactive as rx
from expression.system import ObjectDisposedException
from hypothesis import strategies as st

from ..kit import many, Boom, Rec, fmt_notes, pause, require, run_case, same_notes, settle, val
from ..pipes import LONG

COUNTS = {"quick": 54000, "thorough": 400000}
RULE = ("random histories of subscribe (observer object or callbacks, also the same observer twice), unsubscribe (also "
        "repeatedly), send, throw, close and dispose on an AsyncSubject, with observers that are slow, raise, unsubscribe "
        "themselves or others, subscribe new observers or use the subject re-entrantly while handling a value or a "
        "terminal, and with sends made concurrently with another send or a terminal; compared with a list model. "
        "Non-trivial: at least two observers and one value delivered.")


@st.composite
def cases(draw):
    ops, nobs = [], 0
    for _ in range(draw(many(1, 14, 50))):
        k = draw(st.sampled_from(["sub", "sub", "sub", "send", "send", "send", "send", "unsub", "unsub", "throw", "close",
                                  "dispose", "resub"]))
        if k in ("throw", "close", "dispose") and draw(st.integers(0, 2)):
            k = "send"
        if k == "sub":
            act = draw(st.sampled_from([None, None, None, "unsub-self", "unsub-other", "sub-new", "raise", "nest"]))
            ops.append(["sub", {"cb": draw(st.booleans()), "act": act, "at": draw(st.integers(0, 2)),
                                "who": draw(st.integers(0, max(nobs, 1))), "d": draw(st.sampled_from([0, 0, -1, 0.5])),
                                "react": draw(st.sampled_from([None, None, None, "send", "throw", "close", "unsub"]))}])
            nobs += 1
        elif k in ("unsub", "resub"):
            ops.append([k, draw(st.integers(0, max(nobs - 1, 0)))])
        elif k == "send":
            ops.append(["send", draw(st.integers(0, 26)), draw(st.sampled_from([None, None, None, 0, -1, 0.25]))])
        elif k == "throw":
            ops.append(["throw", "e", draw(st.sampled_from([None, None, 0, -1, 0.25]))])
        elif k == "close":
            ops.append(["close", None, draw(st.sampled_from([None, None, 0, -1, 0.25]))])
        else:
            ops.append([k])
    return {"ops": ops, "cls": draw(st.sampled_from(["AsyncSubject", "AsyncSubject", "test"])), "eq": draw(st.integers(0, 3)) == 0}


class EqualRec(Rec):
    """All of these compare equal."""

    def __eq__(self, other):
        return isinstance(other, EqualRec)

    def __hash__(self):
        return 7


class Slot:
    """One subscription."""

    def __init__(self, rec, spec):
        self.rec = rec
        self.spec = spec
        self.sub = None
        self.live = True
        self.gone = False


def enumerate_cases(tier):
    sub = {"cb": False, "act": None, "at": 0, "who": 0, "d": 0, "react": None}
    for cls in ("AsyncSubject", "test"):
        yield {"cls": cls, "ops": [["sub", sub]] * 3 + [["send", 100 + i, None] for i in range(LONG)] + [["close", None, None]]}
        yield {"cls": cls, "ops": [["sub", sub]] * LONG + [["send", 1, None]] + [["unsub", i] for i in range(0, LONG, 2)] + [["send", 2, None]]}


def execute(case):
    err = Boom("e")
    slots, stats, late = [], {"delivered": 0}, []

    class Order(list):
        """The observers in the order they are notified."""

        def append(self, rec):
            super().append(rec)
            mine = [s for s in slots if s.rec is rec]
            if mine and all(s.gone for s in mine):
                late.append(rec.notes[-1])

    order = Order()

    async def main(loop):
        if case["cls"] == "test":
            from aioreactive.testing import AsyncTestSubject
            subject = AsyncTestSubject()
        else:
            subject = rx.AsyncSubject()
        disposed, stopped = [False], [False]
        calls, toks = [], [0]

        async def call(name, note=None):
            """One call on the subject, entered in `calls` with the subscriptions of that moment."""
            if note is None:
                toks[0] += 1
                note = ("N", ("tok", toks[0])) if name == "send" else ("E", err) if name == "throw" else ("C",)
            c = {"note": note, "members": [s for s in slots if s.live], "changed": set(), "stopped": stopped[0], "raised": None}
            calls.append(c)
            if name != "send":
                stopped[0] = True
            try:
                if name == "send":
                    await subject.asend(note[1])
                elif name == "throw":
                    await subject.athrow(note[1])
                else:
                    await subject.aclose()
            except Boom as ex:
                c["raised"] = ex
                raise

        async def subscribe(spec, rec=None):
            slot = Slot(rec, spec)

            async def hook(k, note):
                react = spec.get("react")
                if note[0] != "N":
                    if react == "unsub":
                        await drop(slot)
                    elif react and not disposed[0]:
                        await call(react, note=("E", Boom("again")) if react == "throw" else None)
                    return
                if k != spec["at"]:
                    return
                if spec["act"] == "unsub-self":
                    await drop(slot)
                elif spec["act"] == "unsub-other" and slots:
                    await drop(slots[spec["who"] % len(slots)])
                elif spec["act"] == "sub-new":
                    await add({"cb": False, "act": None, "at": 0, "who": 0, "d": 0})
                elif spec["act"] == "nest" and not disposed[0] and len(calls) < 6:
                    await call("send")
                elif spec["act"] == "raise":
                    raise Boom("obs")

            if rec is None:
                slot.rec = (EqualRec if case.get("eq") else Rec)(delays=[spec["d"]] if spec["d"] else None, hook=hook)
            r = slot.rec
            r.order = order
            if spec["cb"]:
                slot.sub = await subject.subscribe_async(r.asend, r.athrow, r.aclose)
            else:
                slot.sub = await subject.subscribe_async(r)
            slots.append(slot)
            return slot

        async def add(spec, rec=None):
            slot = await subscribe(spec, rec)
            for c in calls:
                c["changed"].add(slot)

        async def drop(slot):
            if slot.live:
                for c in calls:
                    c["changed"].add(slot)
            slot.live = False
            if slot.sub is not None:
                await slot.sub.dispose_async()
                slot.gone = True

        for op in case["ops"]:
            name = op[0]
            if disposed[0] and name in ("sub", "resub", "send", "throw", "close"):
                try:
                    if name in ("sub", "resub"):
                        await subject.subscribe_async(Rec())
                    elif name == "send":
                        await subject.asend(val(op[1]))
                    elif name == "throw":
                        await subject.athrow(err)
                    else:
                        await subject.aclose()
                except ObjectDisposedException:
                    continue
                require(False, "%s on a disposed subject did not raise ObjectDisposedException", name)
            if name == "sub":
                await add(op[1])
            elif name == "resub" and slots:
                old = slots[op[1] % len(slots)]
                await add({**old.spec, "cb": False}, old.rec)
            elif name == "unsub" and slots:
                await drop(slots[op[1] % len(slots)])
            elif name == "dispose":
                await subject.dispose_async()
                disposed[0] = True
            elif name in ("send", "throw", "close"):
                note = ("N", val(op[1])) if name == "send" else ("E", err) if name == "throw" else ("C",)
                before = {}
                for s in slots:
                    before[id(s.rec)] = len(s.rec.events)
                # calls concerned by this step: this one, re-entrant ones and one made concurrently
                del calls[:], order[:]
                raised = None
                was_stopped = stopped[0]
                first = asyncio.ensure_future(call(name, note))
                if op[2] is not None:
                    await pause(0)
                    await pause(op[2])
                    try:
                        await call("send")
                    except Boom as ex:
                        raised = ex
                try:
                    await first
                except Boom as ex:
                    raised = raised or ex
                step = list(calls)
                del calls[:]
                if name == "send" and not was_stopped and raised is None and len(step) == 1:
                    require(not any(will_raise(s, before) for s in step[0]["members"] if s not in step[0]["changed"]),
                            "an error raised by an observer was swallowed by the subject")
                if len(step) == 1 and raised is None and not step[0]["changed"] and not step[0]["stopped"]:
                    want = [s.rec for s in step[0]["members"]]
                    if len(order) == len(want):
                        require(all(a is b for a, b in zip(order, want)), "%s: the observers subscribed as %s got it in the order %s",
                                name, *([next(i for i, s in enumerate(slots) if s.rec is r) for r in rs] for rs in (want, order)))
                # every observer handled the notification before the call returned
                recs = {id(s.rec): s.rec for s in slots}
                for rid, r in recs.items():
                    require(r.active == 0, "the subject returned while an observer was still handling %s", note[0])
                    got = list(r.notes[before.get(rid, 0):])
                    for c in step:
                        mine = [g for g in got if same_notes([g], [c["note"]])]
                        got = [g for g in got if not same_notes([g], [c["note"]])]
                        if c["stopped"]:
                            lo = hi = 0
                        else:
                            members, changed = c["members"], c["changed"]
                            lo = len([s for s in members if s.rec is r and s not in changed]) if raised is None else 0
                            hi = len([s for s in members if s.rec is r]) + len([s for s in changed if s.rec is r and s not in members])
                        require(lo <= len(mine) <= hi,
                                "%s: an observer with %d live subscriptions got it %d times (after a terminal: %s)",
                                fmt_notes([c["note"]]), hi, len(mine), c["stopped"])
                        stats["delivered"] += len(mine) if c["note"][0] == "N" else 0
                    require(not got, "%s: an observer also got %s", note[0], fmt_notes(got))
        await settle()
        require(not late, "%s delivered to an observer after its subscription was disposed", fmt_notes(late))

    run_case(main, what="AsyncSubject")
    return len(slots) >= 2 and stats["delivered"] > 0, ["ops:%d" % min(len(case["ops"]), 9), case["cls"]] + \
        ["act:" + str(o[1]["act"]) for o in case["ops"] if o[0] == "sub"]


def will_raise(s, before):
    # raises when this very notification is number `at` of its observer
    return s.spec["act"] == "raise" and before[id(s.rec)] == s.spec["at"]
