"""C06: merge family."""
from __future__ import annotations

import aioreactive as rx
from hypothesis import strategies as st

from ..kit import many, Probe, Rec, Violation, fmt_note, fmt_notes, num, require, run_case, settle
from ..pipes import LONG, Ctx, aio, flat_mapi_async, warm_st, warm_up
from ..simul import dur, simulate_merge

COUNTS = {"quick": 42000, "thorough": 350000}
RULE = ("random outer schedule and random timed inner scripts (completing, failing, never ending, failing to subscribe) "
        "through merge, merge_seq, merge_inner(n), flat_map, flat_mapi, flat_map_async; compared with a discrete-event "
        "simulation (order free within one instant). Non-trivial: at least two inner sequences with values.")

GAPS = [0, 0, -1, 1, 1, 2, 0.5, 3]


@st.composite
def inner_st(draw, i, terms="CCCCEN"):
    if draw(st.integers(0, 30)) == 0:
        return {"raise": f"sub{i}"}
    n = draw(many(0, 4, 30, 40))
    gap = st.sampled_from(GAPS)
    s = [[draw(gap), "N", k] for k in range(n)]
    t = draw(st.sampled_from(terms))
    if t != "N":
        s.append([draw(gap), t, f"in{i}" if t == "E" else None])
    return s


@st.composite
def cases_(draw, forms=("merge_inner", "merge_inner", "merge", "merge_seq", "flat_map", "flat_mapi", "flat_map_async",
                        "flat_mapi_async", "method_merge", "method_flat_map")):
    form = draw(st.sampled_from(forms))
    n = draw(many(0, 5, 20)) if form not in ("merge", "method_merge", "concat", "method_concat") else 2
    terms = draw(st.sampled_from(["C", "C", "CCCCCCE", "CCCCEN"]))
    inners = [draw(inner_st(i, terms)) for i in range(n)]
    kinds = [draw(st.sampled_from(["task", "task", "sync"])) for _ in range(n)]
    for i, s in enumerate(inners):
        if kinds[i] == "sync" and not isinstance(s, dict):
            for x in s:
                x[0] = 0
    case = {"form": form, "inners": inners, "kinds": kinds,
            "obs": draw(st.one_of(st.just([]), st.lists(st.sampled_from([0, -1, -2, 0.25, 1.5]), min_size=1, max_size=3))),
            "odd": draw(st.integers(0, 3)) == 0}
    timed = form not in ("merge", "merge_seq", "method_merge", "concat", "concat_seq", "method_concat")
    gap = st.sampled_from(GAPS)
    case["outer"] = [draw(gap) if timed else 0 for _ in range(n)]
    case["oterm"] = draw(st.sampled_from("CCCEN")) if timed else "C"
    case["ogap"] = draw(gap) if timed else 0
    case["mc"] = draw(many(0, 3, 9, 8)) if form == "merge_inner" else 0
    case["d"] = draw(st.sampled_from([0, -1, 1, 0.5])) if form == "flat_map_async" else 0
    case["warm"] = draw(warm_st())
    if n > 1 and draw(st.integers(0, 9)) == 0:  # the same observable again and again
        case["same"] = 1
        case["inners"], case["kinds"] = [inners[0]] * n, [kinds[0]] * n
    if form == "flat_mapi_async":  # whether its mapper holds back the outer source is unspecified
        case["d"] = draw(st.sampled_from([0, -1, -3]))
    return case


def cases():
    return cases_()


ODD = [None, 0, False, "", (), [], 0.0]


class Setup:
    """Builds the merged observable and the expected behaviour for a case."""

    def __init__(self, case):
        self.case = case
        self.ctx = Ctx()
        self.probes = []
        self.live_max = 0
        d = case["d"]
        t, outer = 0.0, []
        for i, g in enumerate(case["outer"]):
            t += dur(g)
            t += dur(d)
            outer.append((t, "N", i))
        t += dur(case["ogap"])
        if case["oterm"] != "N":
            outer.append((t, case["oterm"], "outer" if case["oterm"] == "E" else None))
        self.outer_events = outer
        self.mc = 1 if case["form"] in ("concat", "concat_seq", "concat_map", "method_concat") else case["mc"]
        self.sim = simulate_merge(outer, case["inners"], self.mc)

    def value(self, i, k):
        if self.case.get("same"):
            i = 0
        if self.case["odd"] and num(5, (i, k), 2):
            return ODD[num(9, (i, k), len(ODD))]
        return (i, k)

    def probe(self, i):
        if self.case.get("same"):
            if self.probes:
                return self.probes[0]
            i = 0
        s = self.case["inners"][i]
        setup = self

        class P(Probe):
            async def subscribe_async(self, *a, **kw):
                live = 1 + sum(len(p.attached) for p in setup.probes)
                setup.live_max = max(setup.live_max, live)
                return await super().subscribe_async(*a, **kw)

        if isinstance(s, dict):
            p = P([], subscribe_exc=self.ctx.boom(s["raise"]))
        else:
            p = P([(g, k, self.value(i, j) if k == "N" else self.ctx.boom(x) if k == "E" else None)
                   for j, (g, k, x) in enumerate(s)], mode=self.case["kinds"][i])
        p.no = i
        self.probes.append(p)
        return p

    def outer_probe(self, payloads):
        c = self.case
        script = [(g, "N", payloads[i]) for i, g in enumerate(c["outer"])]
        if c["oterm"] != "N":
            script.append((c["ogap"], c["oterm"], self.ctx.boom("outer") if c["oterm"] == "E" else None))
        self.outer = Probe(script)
        return self.outer

    def build(self):
        c, n = self.case, len(self.case["inners"])
        form = c["form"]
        self.outer = None
        if form in ("merge", "method_merge", "concat", "method_concat"):
            a, b = self.probe(0), self.probe(1)
            if form == "merge":
                return rx.pipe(a, rx.merge(b))
            if form == "concat":
                return rx.pipe(a, rx.concat(b))
            return rx.AsyncRx(a).merge(b) if form == "method_merge" else rx.AsyncRx(a).concat(b)
        if form == "merge_seq":
            return rx.merge_seq([self.probe(i) for i in range(n)])
        if form == "concat_seq":
            return rx.concat_seq([self.probe(i) for i in range(n)])
        if form == "merge_inner":
            o = self.outer_probe([self.probe(i) for i in range(n)])
            return rx.pipe(o, rx.merge_inner(self.mc) if self.mc or c["odd"] else rx.merge_inner())
        o = self.outer_probe(list(range(n)))
        f = lambda i, *_: self.probe(i)  # noqa: E731
        if form == "flat_map":
            return rx.pipe(o, rx.flat_map(f))
        if form == "method_flat_map":
            return rx.AsyncRx(o).flat_map(f)
        if form == "concat_map":
            from ..pipes import concat_map
            return rx.pipe(o, concat_map(f)) if concat_map else rx.pipe(o, rx.map(f), rx.merge_inner(1))
        if form == "flat_mapi":
            def fi(i, j):
                require(i == j, "flat_mapi: mapper got index %r for element %r", j, i)
                return self.probe(i)
            return rx.pipe(o, rx.flat_mapi(fi))
        if form == "flat_mapi_async" and flat_mapi_async is not None:
            def fi(i, j):
                require(i == j, "flat_mapi_async: mapper got index %r for element %r", j, i)
                return self.probe(i)
            return rx.pipe(o, flat_mapi_async(aio(fi, c)))
        return rx.pipe(o, rx.flat_map_async(aio(f, c)))


def run_setup(case):
    setup = Setup(case)
    rec = Rec(delays=case["obs"])

    async def main(loop):
        s = setup.build()
        if case.get("warm"):
            await warm_up(s, case["warm"])
            if "map" in case["form"]:
                setup.probes.clear()
            for p in setup.probes + ([setup.outer] if setup.outer else []):
                p.subs.clear()
            setup.live_max = 0
        t0.append(loop.time())
        await s.subscribe_async(rec)
        await settle()

    t0 = []
    run_case(main, what=case["form"])
    if t0[0]:
        rec.events[:] = [(t - t0[0], n) for t, n in rec.events]
        for p in setup.probes + ([setup.outer] if setup.outer else []):
            for sub in p.subs:
                sub.t -= t0[0]
    return setup, rec


def judge(setup, rec):
    case, sim, form = setup.case, setup.sim, setup.case["form"]
    rec.check(form)
    end = sim["end"]
    got = f"got {fmt_notes(rec.notes)}"
    # terminal
    if end is None:
        require(rec.term is None, "%s: terminated although an input has not: %s", form, got)
    elif end[1] == "C":
        require(rec.term == ("C",), "%s: expected completion, %s", form, got)
    else:
        ok = rec.term is not None and rec.term[0] == "E" and any(rec.term[1] is setup.ctx.boom(t) for t in end[2])
        require(ok, "%s: expected error %s, %s", form, sorted(end[2]), got)
    # values: every emission before the end exactly once; at the instant of an error optional
    must, may = {}, {}
    for t, i, k, _p in sim["emits"]:
        opt = end is not None and end[1] == "E" and t >= end[0]
        (may if opt else must)[(i, k)] = t
    if not case["odd"] and not case.get("same"):
        seen, last_t, last_k = set(), -1.0, {}
        for v in rec.values:
            require(isinstance(v, tuple) and (v in must or v in may), "%s: unexpected value %r, %s", form, v, got)
            require(v not in seen, "%s: value %r delivered twice, %s", form, v, got)
            seen.add(v)
            t = must.get(v, may.get(v))
            require(t >= last_t, "%s: value %r emitted at %s delivered after one emitted at %s", form, v, t, last_t)
            last_t = t
            require(last_k.get(v[0], -1) < v[1], "%s: inner %d out of order, %s", form, v[0], got)
            last_k[v[0]] = v[1]
        missing = sorted(set(must) - seen)
        require(not missing, "%s: lost values %r, %s", form, missing, got)
        if not case["obs"]:
            for t, note in rec.events:
                if note[0] == "N":
                    exp = must.get(note[1], may.get(note[1]))
                    require(abs(t - exp) < 1e-6, "%s: %s delivered at %s, emitted at %s", form, fmt_note(note), t, exp)
            if end is not None:
                require(abs(rec.events[-1][0] - end[0]) < 1e-6, "%s: terminated at %s, expected at %s", form,
                        rec.events[-1][0], end[0])
    else:
        cnt = {}
        for v in rec.values:
            cnt[repr(v)] = cnt.get(repr(v), 0) + 1
        need, room = {}, {}
        for d, tgt in ((must, need), (may, room)):
            for i, k in d:
                r = repr(setup.value(i, k))
                tgt[r] = tgt.get(r, 0) + 1
        for r in set(cnt) | set(need):
            lo, hi = need.get(r, 0), need.get(r, 0) + room.get(r, 0)
            require(lo <= cnt.get(r, 0) <= hi, "%s: value %s delivered %d times, expected %d..%d; %s", form, r,
                    cnt.get(r, 0), lo, hi, got)
    # subscription discipline
    if setup.mc:
        require(setup.live_max <= setup.mc, "%s: %d inner sequences subscribed at once, allowed %d", form,
                setup.live_max, setup.mc)
    before = {i: t for i, t in sim["starts"].items() if end is None or end[1] == "C" or t < end[0]}
    if case.get("same"):
        times = sorted(s.t for p in setup.probes for s in p.subs)
        want = sorted(before.values())
        require(len(times) >= len(want) and all(abs(a - b) < 1e-6 for a, b in zip(times, want)) and (
            len(times) <= len(sim["starts"]) or (case["obs"] and end is not None and end[1] == "E")),
            "%s: the one inner observable was subscribed at %s, expected at %s", form, times, want)
    for p in setup.probes if not case.get("same") else []:
        require(len(p.subs) <= 1, "%s: inner %d subscribed %d times", form, p.no, len(p.subs))
        if p.no in before:
            require(len(p.subs) == 1, "%s: inner %d never subscribed", form, p.no)
            require(abs(p.subs[0].t - before[p.no]) < 1e-6, "%s: inner %d subscribed at %s, expected at %s", form, p.no,
                    p.subs[0].t, before[p.no])
        elif p.no not in sim["starts"] and not (case["obs"] and end is not None and end[1] == "E"):
            # (a slow observer has not seen the error yet, so that is no reason to stop subscribing)
            require(not p.subs, "%s: inner %d subscribed too early", form, p.no)
    order = sorted((p.subs[0] for p in setup.probes if p.subs), key=lambda s: s.t)
    if rec.term is not None:
        for p in setup.probes + ([setup.outer] if setup.outer else []):
            require(not p.attached, "%s: a source is still subscribed after %s", form, rec.term[0])
    return order


def enumerate_cases(tier):
    for form in ("merge_inner", "merge_seq", "flat_map", "flat_mapi", "flat_map_async"):
        for mc in (0, 3) if form == "merge_inner" else (0,):
            for g in (0, 1):
                yield many_inners(form, LONG, mc=mc, g=g)
    for form in ("merge", "method_merge"):
        yield {**many_inners(form, 2), "inners": [[[0, "N", k] for k in range(LONG)] + [[0, "C", None]]] * 2}


def many_inners(form, n, mc=0, g=0):
    timed = form not in ("merge", "merge_seq", "method_merge", "concat", "concat_seq", "method_concat")
    return {"form": form, "inners": [[[g, "N", 0], [g, "C", None]]] * n, "kinds": ["task"] * n, "obs": [], "odd": False,
            "outer": [0.5 if timed else 0] * n, "oterm": "C", "ogap": 1 if timed else 0, "mc": mc, "d": 0}


def execute(case):
    setup, rec = run_setup(case)
    judge(setup, rec)
    end = setup.sim["end"]
    vals = sum(1 for s in case["inners"] if isinstance(s, list) and any(x[1] == "N" for x in s))
    labels = [case["form"], f"mc:{case['mc']}", f"end:{end[1] if end else None}"]
    if setup.mc and len(setup.sim["starts"]) > setup.mc:
        labels.append("queued")
    labels += [k for k in ("warm", "same") if case.get(k)]
    if case["obs"]:
        labels.append("slow-observer")
    return vals >= 2, labels
