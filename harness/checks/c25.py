"""C25: the virtual time event loop runs everything once, in time order, at its due time."""
from __future__ import annotations

import asyncio

from aioreactive.testing import VirtualTimeEventLoop
from hypothesis import strategies as st

from ..kit import Violation, require
from ..vloop import Hang

import signal

COUNTS = {"quick": 36000, "thorough": 300000}
RULE = ("random trees of call_soon, call_later and call_at callbacks (past, present and future), tasks that sleep or time "
        "out, and cancellations before and during the run, with up to hundreds of timers most of which are cancelled, in one "
        "or several runs of the same loop. Each live callback must run exactly once at max(now, due), in due order, "
        "cancelled ones never, time never goes back and never moves for immediate callbacks. Non-trivial: at least two "
        "timers with different due times ran, one cancelled or nested.")

DEL = [0, 0, 0.5, 1, 1.5, 2, 3, 7.25, 0.001, 100, -1]


def node(depth):
    kids = st.lists(node(depth - 1), max_size=3) if depth > 0 else st.just([])
    return st.fixed_dictionaries({
        "k": st.sampled_from(["later", "later", "at", "soon", "sleep", "cancel", "timeout"]),
        "d": st.sampled_from(DEL), "x": st.integers(0, 40), "c": kids})


@st.composite
def cases(draw):
    c = {"top": draw(st.lists(node(2), min_size=1, max_size=6)), "runs": draw(st.integers(1, 2))}
    if draw(st.integers(0, 5)) == 0:
        c["bulk"] = [draw(st.integers(90, 260)), draw(st.integers(1, 9)), draw(st.integers(0, 9)), draw(st.sampled_from([0, 0.5, 2.5]))]
    return c


def execute(case):
    log, expected, nodes = [], {}, []
    handles, cancelled, problems = {}, set(), []
    order = []

    def on_alarm(_s, _f):
        raise Hang()

    loop = VirtualTimeEventLoop()
    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, 10.0)
    asyncio.set_event_loop(loop)
    tasks = []
    try:
        require(loop.time() == 0, "virtual time starts at %s", loop.time())

        def fire(i, due, immediate):
            now = loop.time()
            log.append((i, now))
            want = expected[i]
            if abs(now - want) > 1e-9:
                problems.append(f"callback {i} ran at {now}, due at {want}")
            for kid in nodes[i]["c"]:
                start(kid)

        async def sleeper(i, d, tmo):
            if tmo:
                try:
                    await asyncio.wait_for(loop.create_future(), d)
                    problems.append("wait_for returned without a result")
                except asyncio.TimeoutError:
                    pass
            else:
                await asyncio.sleep(d)
            fire(i, None, False)

        def start(nd):
            i = len(nodes)
            nodes.append(nd)
            now, k, d = loop.time(), nd["k"], nd["d"]
            if k == "later":
                expected[i] = max(now, now + d)
                handles[i] = loop.call_later(d, fire, i, None, False)
            elif k == "at":
                expected[i] = max(now, d * 2)
                handles[i] = loop.call_at(d * 2, fire, i, None, False)
            elif k == "soon":
                expected[i] = now
                handles[i] = loop.call_soon(fire, i, None, True)
            elif k in ("sleep", "timeout"):
                expected[i] = max(now, now + d)
                tasks.append(loop.create_task(sleeper(i, d, k == "timeout")))
            else:
                j = nd["x"]
                if j in handles and not any(x == j for x, _ in log):
                    handles[j].cancel()
                    cancelled.add(j)
                expected[i] = None

        for r in range(case["runs"]):
            for nd in case["top"]:
                start(nd)
            if "bulk" in case and r == 0:
                n, m, phase, at = case["bulk"]
                ids = []
                for b in range(n):
                    nd = {"k": "later", "d": 1 + (b * 7 % 13) * 0.5, "x": 0, "c": []}
                    ids.append(len(nodes))
                    start(nd)

                def reap():
                    for b, i in enumerate(ids):
                        if b % 10 != phase and b % 10 < m + 1 and not any(x == i for x, _ in log):
                            handles[i].cancel()
                            cancelled.add(i)

                if at:
                    loop.call_later(at, reap)
                else:
                    reap()

            async def finish():
                await asyncio.sleep(1200)

            t0 = loop.time()
            loop.run_until_complete(finish())
            require(abs(loop.time() - (t0 + 1200)) < 1e-6, "a sleep of 1200 took %s", loop.time() - t0)
    except Hang:
        raise Violation("the virtual loop hangs") from None
    except Violation:
        raise
    except Exception as ex:
        raise Violation(f"the virtual loop raised {type(ex).__name__}: {ex}") from ex
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        asyncio.set_event_loop(None)
        for t in asyncio.all_tasks(loop):
            t._log_destroy_pending = False
        try:
            loop.close()
        except Exception:
            pass
    require(not problems, "%s", problems[:1])
    counts = {}
    for i, _ in log:
        counts[i] = counts.get(i, 0) + 1
    live = 0
    for i in range(len(nodes)):
        if expected[i] is None:
            continue
        want = 0 if i in cancelled else 1
        require(counts.get(i, 0) == want, "callback %d (%s) ran %d times, expected %d", i, nodes[i]["k"], counts.get(i, 0), want)
        live += want
    times = [t for _, t in log]
    require(times == sorted(times), "time went back: %s", times)
    # immediate callbacks of one instant keep their order
    soon = [i for i, _ in log if nodes[i]["k"] == "soon"]
    require(soon == sorted(soon), "call_soon callbacks ran out of order: %s", soon)
    return len({t for t in times}) > 1 and (bool(cancelled) or any(n["c"] for n in nodes)), \
        ["bulk"] * ("bulk" in case) + ["cancelled"] * bool(cancelled) + ["runs:%d" % case["runs"]]
