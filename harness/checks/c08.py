"""C08: switch_latest family."""
from __future__ import annotations

import aioreactive as rx
from hypothesis import strategies as st

from ..kit import many, Probe, Rec, Violation, fmt_note, fmt_notes, num, require, run_case, settle
from ..pipes import LONG, Ctx, aio, flat_map_latest, warm_st, warm_up
from ..simul import dur, simulate_switch

COUNTS = {"quick": 54000, "thorough": 350000}
RULE = ("random outer schedule and random timed inner scripts (completing, failing, never ending, failing to subscribe, "
        "ignoring disposal) through switch_latest, flat_map_latest and flat_map_latest_async; compared with a "
        "discrete-event simulation, both outcomes allowed where an emission coincides with a switch. "
        "Non-trivial: at least one switch away from an inner sequence that had more to emit.")

IGAPS = [0, 0, 0.5, 0.5, 1, 1, 2, -1]


@st.composite
def cases(draw):
    form = draw(st.sampled_from(["switch_latest", "switch_latest", "flat_map_latest", "flat_map_latest_async", "method_async"]))
    n = draw(many(0, 5, 20))
    inners = []
    terms = draw(st.sampled_from(["C", "CCN", "CCCCEN", "N"]))
    for i in range(n):
        if draw(st.integers(0, 30)) == 0:
            inners.append({"raise": f"sub{i}"})
            continue
        m = draw(many(0, 5, 25, 40))
        s = [[draw(st.sampled_from(IGAPS)), "N", k] for k in range(m)]
        t = draw(st.sampled_from(terms))
        if t != "N":
            s.append([draw(st.sampled_from(IGAPS)), t, f"in{i}" if t == "E" else None])
        inners.append(s)
    kinds = [draw(st.sampled_from(["task", "task", "task", "sync"])) for _ in range(n)]
    for i, s in enumerate(inners):
        if kinds[i] == "sync" and isinstance(s, list):
            for x in s:
                x[0] = 0
    ties = draw(st.booleans())
    gap = st.sampled_from([0, 1, 1, 2, 3] if ties else [1, 2, 3, 4])
    outer = [draw(gap) + (0 if ties else 2.0 ** (-(i + 3) if n <= 5 else -6)) for i in range(n)]
    same = n > 1 and draw(st.integers(0, 9)) == 0  # the same observable again and again
    if same:
        inners, kinds = [inners[0]] * n, [kinds[0]] * n
    return {"form": form, "inners": inners, "kinds": kinds, "outer": outer, "ties": ties, "same": int(same), "warm": draw(warm_st()),
            "oterm": draw(st.sampled_from("CCCCEN")), "ogap": draw(gap) + (0 if ties else 2.0 ** -9),
            "deaf": draw(st.integers(0, 3)) == 0, "odd": draw(st.booleans()),
            "d": draw(st.sampled_from([0, 0, -1, 2])) if form.endswith("async") else 0,
            "obs": draw(st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from([0, -1, 0.25, 1.5]), min_size=1, max_size=3)))}




def enumerate_cases(tier):
    for form in ("switch_latest", "flat_map_latest", "flat_map_latest_async"):
        yield {"form": form, "inners": [[[0.5, "N", 0], [0.5, "C", None]]] * LONG, "kinds": ["task"] * LONG, "outer": [2] * LONG,
               "ties": True, "oterm": "C", "ogap": 2, "deaf": False, "odd": False, "d": 0, "obs": []}


def execute(case):
    ctx = Ctx()
    rec = Rec(delays=case["obs"])
    probes, form = {}, case["form"]

    def probe(i):
        if case.get("same"):
            if probes:
                return probes[0]
            i = 0
        s = case["inners"][i]
        if isinstance(s, dict):
            p = Probe([], subscribe_exc=ctx.boom(s["raise"]))
        else:
            p = Probe([(g, k, (i, j) if k == "N" else ctx.boom(x) if k == "E" else None) for j, (g, k, x) in enumerate(s)],
                      mode=case["kinds"][i], stop_on_dispose=not case["deaf"])
        probes[i] = p
        return p

    t, outer = 0.0, []
    for i, g in enumerate(case["outer"]):
        t += dur(g) + dur(case["d"])
        outer.append((t, "N", i))
    t += dur(case["ogap"])
    if case["oterm"] != "N":
        outer.append((t, case["oterm"], "outer" if case["oterm"] == "E" else None))
    sim = simulate_switch(outer, case["inners"])
    n = len(case["inners"])
    script = [(g, "N", i) for i, g in enumerate(case["outer"])]
    if case["oterm"] != "N":
        script.append((case["ogap"], case["oterm"], ctx.boom("outer") if case["oterm"] == "E" else None))
    src = Probe(script)

    async def main(loop):
        if form == "switch_latest":
            for i in range(n):
                src.script[i] = (src.script[i][0], "N", probe(i))
            s = rx.pipe(src, rx.switch_latest())
        elif form == "flat_map_latest" and flat_map_latest is not None:
            s = rx.pipe(src, flat_map_latest(probe))
        elif form == "method_async":
            s = rx.AsyncRx(src).flat_map_latest_async(aio(probe, case))
        else:
            s = rx.pipe(src, rx.flat_map_latest_async(aio(probe, case)))
        if case.get("warm"):
            await warm_up(s, case["warm"])
            for p in [src, *probes.values()]:
                p.subs.clear()
        began.append(loop.time())
        await s.subscribe_async(rec)
        await settle()

    began = []
    run_case(main, what=form)
    rec.events[:] = [(t - began[0], n) for t, n in rec.events]
    rec.check(form)

    # possible worlds: each coinciding (maybe) error either happens or not
    worlds, ends = [], sim["ends"]
    certain = None
    for e in ends:
        if not e[3]:
            certain = e
            break
    for e in ends:
        if e[3] and (certain is None or e[0] <= certain[0]):
            worlds.append((e[0], "E", {e[2]}))
    if certain is None:
        worlds.append(None)
    else:
        same_t = [e for e in ends if e[0] == certain[0] and e[1] == "E"]
        if certain[1] == "E":
            worlds.append((certain[0], "E", {e[2] for e in same_t}))
        else:
            worlds.append((certain[0], "C", set()))
            if same_t:  # an inner error coinciding with completion cannot happen, an outer one neither
                worlds.append((certain[0], "E", {e[2] for e in same_t}))
    why = []
    for w in worlds:
        msg = judge(case, sim, rec, ctx, w)
        if msg is None:
            break
        why.append(msg)
    else:
        raise Violation(f"{form}: {why[-1]}; got {fmt_notes(rec.notes)}")
    # the previous inner is unsubscribed when the next arrives
    for j in range(len(sim["switch"]) - 1):
        t0, i = sim["switch"][j]
        nxt = sim["switch"][j + 1][0]
        p = probes.get(i)
        if case.get("same"):
            continue
        if p is None or not p.subs or (rec.term is not None and rec.events[-1][0] <= nxt):
            continue
        sub = p.subs[0]
        if not sub.ended:
            require(sub.disposed and abs(sub.disposed_at - began[0] - nxt) < 1e-6,
                    "%s: inner %d not unsubscribed at the switch (t=%s)", form, i, nxt)
    for i, p in probes.items():
        require(len(p.subs) <= (n if case.get("same") else 1), "%s: inner %d subscribed %d times", form, i, len(p.subs))
        if rec.term is not None:
            require(not p.attached, "%s: inner %d still subscribed after %s", form, i, rec.term[0])
    if rec.term is not None:
        require(not src.attached, "%s: outer still subscribed after %s", form, rec.term[0])
    cut = 0
    for j in range(len(sim["switch"]) - 1):
        i = sim["switch"][j][1]
        if isinstance(case["inners"][i], list):
            total = sum(1 for x in case["inners"][i] if x[1] == "N")
            cut += sum(1 for e in sim["emits"] if e[1] == i) < total
    return cut >= 1, [form, f"end:{rec.term[0] if rec.term else None}"] + [k for k in ("ties", "deaf") if case[k]] + \
        (["slow-observer"] if case["obs"] else [])


def judge(case, sim, rec, ctx, w):
    if w is None:
        if rec.term is not None:
            return "terminated although nothing ended it"
    elif w[1] == "C":
        if rec.term != ("C",):
            return f"expected completion at {w[0]}"
    elif not (rec.term and rec.term[0] == "E" and any(rec.term[1] is ctx.boom(t) for t in w[2])):
        return f"expected error {sorted(w[2])} at {w[0]}"
    must, may = {}, {}
    for t, i, k, _p, maybe in sim["emits"]:
        if w is not None and (t > w[0]):
            continue
        opt = maybe or (w is not None and w[1] == "E" and t >= w[0])
        (may if opt else must)[(i, k)] = t
    if case.get("same"):
        need, room = [(t, k) for (_i, k), t in must.items()], [(t, k) for (_i, k), t in may.items()]
        for t, note in rec.events:
            if note[0] != "N":
                continue
            for pool in (need, room):
                hit = [e for e in pool if e[1] == note[1][1] and (case["obs"] or abs(e[0] - t) < 1e-6)]
                if hit:
                    pool.remove(hit[0])
                    break
            else:
                return f"unexpected {fmt_note(note)} at {t}"
        return f"lost values {need!r}" if need else None
    seen, last, last_k = set(), (-1.0, -1), {}
    for v in rec.values:
        if v not in must and v not in may:
            return f"unexpected value {v!r}"
        if v in seen:
            return f"value {v!r} delivered twice"
        seen.add(v)
        t = must.get(v, may.get(v))
        if (t, v[0]) < last:
            return f"value {v!r} out of order"
        last = (t, v[0])
        if last_k.get(v[0], -1) >= v[1]:
            return f"value {v!r} out of order"
        last_k[v[0]] = v[1]
    missing = sorted(set(must) - seen)
    if missing:
        return f"lost values {missing!r}"
    if not case["obs"]:
        for t, note in rec.events:
            if note[0] == "N":
                exp = must.get(note[1], may.get(note[1]))
                if abs(t - exp) > 1e-6:
                    return f"{fmt_note(note)} delivered at {t}, emitted at {exp}"
        if w is not None and abs(rec.events[-1][0] - w[0]) > 1e-6:
            return f"terminated at {rec.events[-1][0]}, expected at {w[0]}"
    return None
