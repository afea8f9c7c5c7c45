"""C09: combine_latest, with_latest_from, zip_seq."""
from __future__ import annotations

import aioreactive as rx
from hypothesis import strategies as st

from ..kit import many, Rec, Violation, fmt_notes, require, run_case, same_notes, settle, val
from ..pipes import LONG, long_source, Ctx, build_source, warm_st, warm_up, zip_seq
from ..simul import dur

COUNTS = {"quick": 42000, "thorough": 350000}
RULE = ("two random timed scripts on a tie-free grid (values interleave arbitrarily; either may complete, fail or never end) "
        "through combine_latest and with_latest_from, and random sources zipped with finite, infinite or failing iterables; "
        "compared with an event-by-event model. Non-trivial: at least two combined values.")


@st.composite
def timed(draw, tag, offset, max_len=6):
    n = draw(many(0, max_len, 40))
    s = [[draw(st.sampled_from([0, 0, 1, 1, 2])) + (offset if i == 0 else 0), "N", draw(st.integers(0, 26))] for i in range(n)]
    t = draw(st.sampled_from("CCEN"))
    if t != "N":
        s.append([draw(st.sampled_from([1, 2, 3, 5])) + (offset if n == 0 else 0), t, tag if t == "E" else None])
    return {"k": draw(st.sampled_from(["task", "task", "subj", "aiter"])), "s": s}


@st.composite
def cases(draw):
    obs = draw(st.one_of(st.just([]), st.lists(st.sampled_from([0, -1, -2, 0.25, 1.5]), min_size=1, max_size=3)))
    form = draw(st.sampled_from(["combine_latest", "with_latest_from", "method_combine", "method_with", "zip_seq"]))
    if form == "zip_seq":
        return {"form": form, "a": draw(timed("a", 0, 7)), "k": draw(many(0, 8, 45)),
                "end": draw(st.sampled_from(["stop", "stop", "raise", "inf"])), "obs": obs, "warm": draw(warm_st())}
    return {"form": form, "a": draw(timed("a", 0)), "b": draw(timed("b", 0.25)), "obs": obs, "warm": draw(warm_st())}


def events(ctx, src, which):
    t, out = 0.0, []
    for g, k, p in src["s"]:
        t += dur(g)
        out.append((t, which, k, val(p) if k == "N" else ctx.boom(p) if k == "E" else None))
        if k != "N":
            break
    return out


def enumerate_cases(tier):
    for form in ("combine_latest", "with_latest_from", "method_combine", "method_with"):
        yield {"form": form, "a": long_source(gap=1, mod=7), "obs": [], "warm": 0,
               "b": {"k": "task", "s": [[1 + 0.25 * (i == 0), "N", 100 + i] for i in range(LONG)] + [[3, "C", None]]}}
    yield {"form": "zip_seq", "a": long_source(), "k": LONG, "end": "stop", "obs": [], "warm": 0}
    yield {"form": "zip_seq", "a": long_source(), "k": 0, "end": "inf", "obs": [], "warm": 0}


def execute(case):
    ctx, rec, form = Ctx(), Rec(delays=case["obs"]), case["form"]
    if form == "zip_seq":
        return zip_case(case, ctx, rec)

    t0 = []

    async def main(loop):
        a, b = build_source(ctx, case["a"]), build_source(ctx, case["b"])
        if form == "combine_latest":
            s = rx.pipe(a, rx.combine_latest(b))
        elif form == "method_combine":
            s = rx.AsyncRx(a).combine_latest(b)
        elif form == "with_latest_from":
            s = rx.pipe(a, with_latest_from(b))
        else:
            s = rx.AsyncRx(a).with_latest_from(b)
        await warm_up(s, case.get("warm", 0))
        t0.append(loop.time())
        await s.subscribe_async(rec)
        await settle()

    run_case(main, what=form)
    combine = "combine" in form
    evs = sorted(events(ctx, case["a"], "a") + events(ctx, case["b"], "b"), key=lambda e: e[0])
    want, latest = [], {}
    for t, w, k, v in evs:
        if k == "C":
            want.append((t, ("C",)))
            break
        if k == "E":
            want.append((t, ("E", v)))
            break
        latest[w] = v
        if len(latest) == 2 and (combine or w == "a"):
            want.append((t, ("N", (latest["a"], latest["b"]))))
    notes = [n for _, n in want]
    if not same_notes(rec.notes, notes):
        raise Violation(f"{form}: got {fmt_notes(rec.notes)}, expected {fmt_notes(notes)}")
    if not case["obs"]:
        for (t, n), (u, _) in zip(rec.events, want):
            require(abs(t - t0[0] - u) < 1e-6, "%s: %r delivered at %s, expected at %s", form, n, t, u)
    if rec.term is not None:
        for p in ctx.probes:
            require(not p.attached, "%s: an input is still subscribed after %s", form, rec.term[0])
    return len(rec.values) >= 2, [form, f"end:{notes[-1][0] if notes else None}"] + (["slow-observer"] if case["obs"] else [])


try:
    from aioreactive.combine import with_latest_from
except Exception:  # pragma: no cover
    def with_latest_from(b):
        return lambda a: rx.AsyncRx(a).with_latest_from(b)


def zip_case(case, ctx, rec):
    k, end = case["k"], case["end"]

    class It:
        def __iter__(self):
            i = 0
            while end == "inf" or i < k:
                yield (i, "it")
                i += 1
            if end == "raise":
                raise ctx.boom("it")

    async def main(loop):
        s = rx.pipe(build_source(ctx, case["a"]), zip_seq(It()))
        await warm_up(s, case.get("warm", 0))
        await s.subscribe_async(rec)
        await settle()

    if zip_seq is None:
        return False, ["zip_seq-missing"]
    run_case(main, what="zip_seq")
    want = []
    for _t, _w, kind, v in events(ctx, case["a"], "a"):
        if kind == "C":
            want.append(("C",))
        elif kind == "E":
            want.append(("E", v))
        elif end == "inf" or len(want) < k:
            want.append(("N", (v, (len(want), "it"))))
            continue
        else:
            want.append(("E", ctx.boom("it")) if end == "raise" else ("C",))
        break
    if not same_notes(rec.notes, want):
        raise Violation(f"zip_seq: got {fmt_notes(rec.notes)}, expected {fmt_notes(want)}")
    if rec.term is not None:
        for p in ctx.probes:
            require(not p.attached, "zip_seq: source still subscribed after %s", rec.term[0])
    return len(rec.values) >= 2, ["zip_seq", f"iter:{end}", f"end:{want[-1][0] if want else None}"]
