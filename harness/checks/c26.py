"""C26: the recording observer, the scheduling subjects and notifications."""
from __future__ import annotations

import asyncio

from aioreactive import AsyncNotificationObserver
from aioreactive.notification import MsgKind, OnCompleted, OnError, OnNext
from aioreactive.testing import AsyncTestObserver, AsyncTestSingleSubject, AsyncTestSubject, VirtualTimeEventLoop, ca
from hypothesis import strategies as st

from ..kit import Boom, Rec, Violation, fmt_notes, known_or_violation, pause, require, run_case, same, same_notes, settle, val
from ..pipes import HOSTILE, idx_st

COUNTS = {"quick": 48000, "thorough": 350000}
RULE = ("random schedules of absolute, relative and background sends, errors and closes on the test subjects (past, present, "
        "future and coinciding times, one or several recording observers, on either virtual loop): every observer must "
        "record each notification exactly once at exactly its time and nothing after the terminal; its callbacks run once per "
        "notification and awaiting it gives the last value or the error. Random notifications: kind, equality, dispatch to "
        "callbacks and observers. Non-trivial: at least two notifications recorded at different times, or two compared.")

TIMES = [0, 0.25, 0.5, 0.75, 1, 1.5, 2, 3.125, 10]


@st.composite
def cases(draw):
    if draw(st.integers(0, 4)) == 0:
        n = draw(st.integers(2, 4))
        return {"mode": "note", "ns": [[draw(st.sampled_from("NNNEC")), draw(idx_st().filter(lambda i: i != HOSTILE))] for _ in range(n)]}
    cmds = []
    for _ in range(draw(st.integers(1, 7))):
        how = draw(st.sampled_from(["at", "at", "bg", "bg", "later", "wait"]))
        cmds.append([how, draw(st.sampled_from("NNNNNNEC")), draw(st.sampled_from(TIMES)),
                     draw(idx_st().filter(lambda i: i != HOSTILE))])
    kind = draw(st.sampled_from(["multi", "multi", "single"]))
    obs = [[draw(st.sampled_from([0, 0, 0.25, 2])), draw(st.sampled_from([0, 0, -1, 0.3003]))]
           for _ in range(1 if kind == "single" else draw(st.integers(1, 3)))]
    if len(obs) > 1:  # a slow observer holds back its peers
        obs = [[t, 0] for t, _ in obs]
    if kind == "single":
        obs[0][0] = 0
    return {"mode": "subj", "kind": kind, "cmds": cmds, "obs": obs, "loop": draw(st.sampled_from(["v", "v", "lib"]))}


def execute(case):
    return run_note(case) if case["mode"] == "note" else run_subj(case)


def plan(cmds, boom):
    """(due, seq, note) in the order they are due; driver time advances with 'wait' and 'later'."""
    now, out = 0.0, []
    for i, (how, kind, t, idx) in enumerate(cmds):
        note = ("N", val(idx)) if kind == "N" else ("E", boom) if kind == "E" else ("C",)
        if how == "wait":
            now += t
        elif how == "at":
            out.append((max(now, t), i, note))
        elif how == "bg":
            out.append((now + t, i, note))
        else:
            now += t
            out.append((now, i, note))
    return out


def run_subj(case):
    boom = Boom("e")
    recs, calls = [], []
    dues = [t for t, _, _ in plan(case["cmds"], boom)]
    tied = len(set(dues)) < len(dues)

    async def main(loop):
        s = AsyncTestSubject() if case["kind"] == "multi" else AsyncTestSingleSubject()

        def observer():
            mine = []
            d = case["obs"][len(recs)][1]
            if tied:  # what happens after a pause may then be in any order
                d = min(d, 0)

            async def send(v):
                mine.append(("N", v))
                await pause(d)

            async def throw(e):
                mine.append(("E", e))
                await pause(d)

            async def close():
                mine.append(("C",))
                await pause(d)

            o = AsyncTestObserver(send, throw, close)
            recs.append(o)
            calls.append(mine)
            return o

        async def late(t, o):
            await asyncio.sleep(t)
            await s.subscribe_async(o)

        for t, _ in case["obs"]:
            o = observer()
            if t:
                loop.create_task(late(t - 0.0625, o))
            else:
                await s.subscribe_async(o)
        # a blocking call also waits for the observer, so the driver only issues it from a task of its own
        base = loop.time()
        for how, kind, t, idx in case["cmds"]:
            now = loop.time()
            if how == "wait":
                await asyncio.sleep(t)
            elif how == "at":
                r = {"N": lambda: s.asend_at(t, val(idx)), "E": lambda: s.athrow_at(t, boom), "C": lambda: s.aclose_at(t)}[kind]()
                await r
                require(loop.time() == now, "scheduling at an absolute time took time")
            elif how == "bg":
                r = {"N": lambda: s.asend_later_scheduled(t, val(idx)), "E": lambda: s.athrow_later_scheduled(t, boom),
                     "C": lambda: s.close_later_scheduled(t)}[kind]()
                await r
                require(loop.time() == now, "scheduling in the background took time")
            else:
                r = {"N": lambda: s.asend_later(t, val(idx)), "E": lambda: s.athrow_later(t, boom), "C": lambda: s.aclose_later(t)}[kind]()
                task = loop.create_task(r)
                await asyncio.sleep(t)
        await asyncio.sleep(60)

    if case["loop"] == "lib":
        loop = VirtualTimeEventLoop()
        asyncio.set_event_loop(loop)
        try:
            loop.run_until_complete(asyncio.wait_for(main(loop), 500))
        except Violation:
            raise
        except Exception as ex:
            raise Violation(f"test subject: unexpected {type(ex).__name__}: {ex}") from ex
        finally:
            asyncio.set_event_loop(None)
            loop.close()
    else:
        run_case(main, what="test subject")

    due = sorted(plan(case["cmds"], boom), key=lambda x: x[0])
    ends = [t for t, _, n in due if n[0] != "N"]
    end = min(ends) if ends else None
    many = 0
    for (start, slow), o, mine in zip(case["obs"], recs, calls):
        start = start - 0.0625 if start else 0
        got = o.values
        # exact before the first terminal; at its instant any order of what is due then, up to one terminal
        must = [(t, n) for t, _, n in due if t >= start and (end is None or t < end)]
        tail = [(t, n) for t, _, n in due if t >= start and end is not None and t == end]
        n = len(must)
        head, rest = got[:n], got[n:]
        by = {}
        for t, note in must:
            by.setdefault(t, []).append(note)
        hy = {}
        for t, note in head:
            hy.setdefault(t, []).append(raw(note))
        require([t for t, _ in head] == [t for t, _ in must], "recorded at %s, expected %s (%s)", [t for t, _ in head], [t for t, _ in must],
                [str(x) for _, x in got])
        for t in by:
            require(matches(by[t], hy[t]), "at %s: recorded %s, expected %s", t, fmt_notes(hy[t]), fmt_notes(by[t]))
        if end is None or start > end:
            require(not rest, "recorded %s too much", [str(x) for _, x in rest])
        else:
            rr = [raw(x) for _, x in rest]
            require(all(t == end for t, _ in rest) and rr and rr[-1][0] != "N" and all(x[0] == "N" for x in rr[:-1])
                    and submulti(rr, [n for _, n in tail]), "at %s: recorded %s of %s", end, fmt_notes(rr), fmt_notes([n for _, n in tail]))
        want = [raw(x) for _, x in got]
        # the callbacks of a slow observer still run once for every notification
        if not same_notes(mine, want):
            msg = f"callbacks saw {fmt_notes(mine)}, recorded {fmt_notes(want)}"
            if matches(mine, want + want):
                known_or_violation("C26", "test-observer-callbacks-twice", msg)
            else:
                raise Violation(msg)
        if want and want[-1][0] == "E":
            require(o.done() and not o.cancelled() and o.exception() is boom, "awaiting the observer does not give the error")
        elif want and want[-1][0] == "C":
            vs = [x[1] for x in want if x[0] == "N"]
            require(o.done(), "the observer is not done after close")
            if vs:
                require(not o.cancelled() and same(o.result(), vs[-1]), "awaiting the observer gives the wrong value")
            else:
                require(o.cancelled(), "a close without values should cancel")
        else:
            require(not o.done(), "the observer is done without a terminal")
        many = max(many, len({t for t, _ in got}))
    return many > 1, ["subj", case["kind"], case["loop"], "obs:%d" % len(recs)] + ["ended"] * bool(ends)


def raw(n):
    if isinstance(n, OnNext):
        return ("N", n.value)
    if isinstance(n, OnError):
        return ("E", n.exception)
    require(isinstance(n, OnCompleted), "recorded %r, which is no notification", n)
    return ("C",)


def submulti(xs, ys):
    ys = list(ys)
    for x in xs:
        for j, y in enumerate(ys):
            if same_notes([x], [y]):
                del ys[j]
                break
        else:
            return False
    return True


def matches(xs, ys):
    return len(xs) == len(ys) and submulti(xs, ys)


def run_note(case):
    booms = {}

    def build(k, i):
        if k == "N":
            return OnNext(val(i))
        if k == "E":
            # different errors that look alike are still different
            return OnError(booms.setdefault(i % 6, (LookupError, ValueError, KeyError)[i % 3]("x" if i % 6 < 4 else "y")))
        return OnCompleted()

    async def main(loop):
        ns = [build(k, i) for k, i in case["ns"]]
        for (k, i), n in zip(case["ns"], ns):
            require(n.kind is {"N": MsgKind.ON_NEXT, "E": MsgKind.ON_ERROR, "C": MsgKind.ON_COMPLETED}[k], "%s has kind %s", n, n.kind)
            want = raw(n)
            if k == "N":
                require(same(want[1], val(i)), "OnNext holds %r", want[1])
                match n:
                    case OnNext(v):
                        require(v is n.value, "pattern match gives %r", v)
            seen = []

            async def send(v):
                seen.append(("N", v))

            async def throw(e):
                seen.append(("E", e))

            async def close():
                seen.append(("C",))

            await n.accept(send, throw, close)
            require(same_notes(seen, [want]), "%s dispatched %s", n, fmt_notes(seen))
            rec = Rec()
            await n.accept_observer(rec)
            require(same_notes(rec.notes, [want]), "%s dispatched %s to an observer", n, fmt_notes(rec.notes))
            back = []

            async def fn(m):
                back.append(m)

            await n.accept_observer(AsyncNotificationObserver(fn))
            require(len(back) == 1 and type(back[0]) is type(n) and same_notes([raw(back[0])], [want]), "round trip of %s gave %s", n, back)
            nan = k == "N" and val(i) != val(i)
            require(nan or back[0] == n, "a notification differs from its round trip: %s", n)
        for (k1, i1), a in zip(case["ns"], ns):
            for (k2, i2), b in zip(case["ns"], ns):
                if k1 != k2:
                    want = False
                elif k1 == "N":
                    want = bool(a.value == b.value)
                elif k1 == "E":
                    want = a.exception is b.exception
                else:
                    want = True
                require((a == b) is want and (a != b) is (not want), "%s == %s is %s", a, b, a == b)
            require(not (a == 1) and not (a == "OnCompleted") and not (a == raw(a)), "%s equals something that is no notification", a)
        x = len(case["ns"]) / 2
        require(x == ca(x) and x * 1.001 == ca(x) and not (x * 1.02 == ca(x)), "approximate comparison is off")

    run_case(main, what="notifications")
    return len({k for k, _ in case["ns"]}) > 1, ["note"]
