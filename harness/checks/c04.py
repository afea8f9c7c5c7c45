"""C04: positional operators agree with Python sequence semantics."""
from __future__ import annotations

import itertools

import aioreactive as rx
from hypothesis import strategies as st

from ..kit import many, Rec, Violation, fmt_notes, run_case, same_notes, settle, trace_notes, val
from ..pipes import (long_op, long_source, POS_OPS, Ctx, Endless, build_source, describe, expect_notes, obs_delays_st, op_st, run_pipeline,
                     script_trace, source_st, warm_st)

COUNTS = {"quick": 42000, "thorough": 350000}
RULE = ("(a) random source (sometimes subscribed before) through 1-3 random positional operators (skip, take, take_last, skip_last, slice, [a:b:c], "
        "[i], distinct_until_changed) against Python list semantics; (b) take_until with random timed scripts on a "
        "tie-free time grid; (b2) skip, take, slices and indexing over iterables without an end; (c) enumeration of all slices [a:b:c] over short sources. Non-trivial: at least two source values.")


@st.composite
def until_st(draw):
    n = draw(st.integers(0, 7))
    src = [[draw(st.sampled_from([0, 1, 1, 2])), "N", draw(st.integers(0, 26))] for _ in range(n)]
    t = draw(st.sampled_from("CEN"))
    if t != "N":
        src.append([draw(st.sampled_from([1, 2])), t, "src"])
    m = draw(st.integers(0, 3))
    oth = [[draw(st.sampled_from([0.5, 1.5, 2.5])) if i == 0 else draw(st.sampled_from([0, 1, 2])), "N", i] for i in range(m)]
    t = draw(st.sampled_from("CEN"))
    if t != "N":
        oth.append([draw(st.sampled_from([1.5, 2.5])) if m == 0 else 1, t, "oth"])
    kinds = ["task", "subj", "aiter"]
    return {"until": {"src": {"k": draw(st.sampled_from(kinds)), "s": src},
                      "oth": {"k": draw(st.sampled_from(kinds)), "s": oth}},
            "obs": draw(obs_delays_st())}


@st.composite
def endless_st(draw):
    ops = []
    for _ in range(draw(st.integers(0, 2))):
        ops.append(draw(st.sampled_from([["skip", draw(st.integers(0, 9))], ["step", draw(st.integers(2, 4))], ["distinct"]])))
    n, m = draw(many(0, 6, 60)), draw(many(1, 5, 60))
    ops.append(draw(st.sampled_from([["take", m], ["slice", n, n + m], ["index", n]])))
    return {"endless": ops, "n": draw(st.sampled_from([1, 1, 2])), "obs": draw(st.sampled_from([[], [], [-1], [-1, 0, -3]]))}


def run_endless(case):
    """from_iterable over an iterable without an end: no time passes and nothing else terminates it."""
    recs = [Rec(delays=case["obs"]) for _ in range(case["n"])]
    want, endless = itertools.count(), Endless()

    async def main(loop):
        s = rx.AsyncRx(rx.from_iterable(endless))
        for name, *args in case["endless"]:
            if name == "skip":
                s = s.skip(*args)
            elif name == "step":
                s = s[::args[0]]
            elif name == "distinct":
                s = s.distinct_until_changed()
            elif name == "take":
                s = s.take(*args)
            elif name == "slice":
                s = s[args[0]:args[1]]
            else:
                s = s[args[0]]
        for rec in recs:
            await s.subscribe_async(rec)
        await settle()

    run_case(main, what="endless iterable")
    if endless.pulled == endless.LIMIT:
        raise Violation(f"endless iterable, {case['endless']}: nobody else got to run before {endless.LIMIT} items were pulled")
    for name, *args in case["endless"]:
        a, b, c = {"skip": lambda n: (n, None, 1), "step": lambda n: (0, None, n), "distinct": lambda: (0, None, 1),
                   "take": lambda n: (0, n, 1), "slice": lambda a, b: (a, b, 1), "index": lambda i: (i, i + 1, 1)}[name](*args)
        want = itertools.islice(want, a, b, c)
    want = trace_notes(list(want), ("C",))
    for rec in recs:
        if not same_notes(rec.notes, want):
            raise Violation(f"endless iterable, {case['endless']}: got {fmt_notes(rec.notes)}, expected {fmt_notes(want)}")
    return len(want) > 2, ["endless"]


def cases():
    chain = st.fixed_dictionaries({
        "src": source_st(max_len=9, long=700),
        "ops": st.lists(op_st(POS_OPS), min_size=1, max_size=3),
        "obs": obs_delays_st(),
        "warm": warm_st(),
    })
    index = st.fixed_dictionaries({"src": source_st(max_len=7, terms="C"), "index": st.one_of(st.integers(-6, 8), st.integers(-6, 8), st.integers(-45, 45))})
    dups = st.fixed_dictionaries({  # runs of equal and nearly equal values
        "src": source_st(max_len=9, idx=st.sampled_from([0, 8, 9, 3, 4, 5, 17, 20, 11, 12])),
        "ops": st.lists(op_st(["distinct", "distinct", "skip", "take"]), min_size=1, max_size=2),
        "obs": obs_delays_st(),
    })
    return st.one_of(chain, chain, chain, until_st(), dups, index, endless_st())


def enumerate_cases(tier):
    for name in POS_OPS:
        for kind, term in (("task", "C"), ("iter", "C"), ("task", "E")):
            yield {"src": long_source(kind=kind, term=term, mod=1 + 999 * (name != "distinct")), "ops": [long_op(name)], "obs": []}
    yield {"src": long_source(), "ops": [long_op("distinct")], "obs": []}
    for a, b, c in ((None, None, 3), (5, None, 7), (-600, None, 3), (10, 1200, 5), (-1000, -100, 11), (-900, 1000, 3), (255, -256, 10),
                    (None, 1024, 1), (256, 257, 1), (None, None, 500), (1100, None, 2), (None, -1299, 1)):
        yield {"src": long_source(kind="iter"), "ops": [["getitem", {"a": a, "b": b, "c": c}]], "obs": []}
    for name in ("skip", "take_last", "skip_last", "take"):
        for k in (63, 64, 127, 128, 255, 256, 257, 511, 512, 1000, 1024, 1298, 1299, 1300, 1301, 5000):
            yield {"src": long_source(kind="iter"), "ops": [[name, {"n": k}]], "obs": []}
    for i in (63, 128, 255, 256, 1000, 1024, 1299, 1300, -1, -129, -256, -1024, -1299, -1300, -1301):
        yield {"src": long_source(kind="iter"), "index": i}
    hi = 4 if tier == "quick" else 6
    bounds = [None, *range(-hi - 1, hi + 2)]
    for n in range(hi + 1):
        src = {"k": "iter", "s": [[0, "N", 100 + i] for i in range(n)] + [[0, "C", None]]}
        for a, b, c in itertools.product(bounds, bounds, [None, 2, 3] if tier == "quick" else [None, 1, 2, 3, 4]):
            yield {"src": src, "ops": [["getitem", {"a": a, "b": b, "c": c}]], "obs": []}
        for i in range(-hi - 1, hi + 2):
            yield {"src": src, "index": i}
        for name in ("skip", "take_last", "skip_last", "take"):
            for k in range(1 if name == "take" else 0, hi + 2):
                yield {"src": src, "ops": [[name, {"n": k}]], "obs": []}


def until_model(ctx, u):
    """Expected notes of take_until on a tie-free grid."""
    t, cut, oterm = 0.0, None, None
    for g, k, _p in u["oth"]["s"]:
        t += g
        if k == "N":
            cut, oterm = t, ("C",)
            break
        if k == "E":
            cut, oterm = t, ("E", ctx.boom("oth"))
            break
        break
    t, out = 0.0, []
    for g, k, p in u["src"]["s"]:
        t += g
        if cut is not None and t > cut:
            break
        if k == "N":
            out.append(("N", val(p)))
        else:
            return out + [("C",) if k == "C" else ("E", ctx.boom("src"))]
    if cut is not None:
        out.append(oterm)
    return out


def execute(case):
    if "endless" in case:
        return run_endless(case)
    if "until" in case:
        u = case["until"]
        ctx, rec = Ctx(), Rec(delays=case["obs"])

        async def main(loop):
            s = rx.pipe(build_source(ctx, u["src"]), rx.take_until(build_source(ctx, u["oth"])))
            await s.subscribe_async(rec)
            await settle()

        run_case(main, what="take_until")
        want = until_model(ctx, u)
        if not same_notes(rec.notes, want):
            raise Violation(f"take_until: got {fmt_notes(rec.notes)}, expected {fmt_notes(want)}")
        return len(u["src"]["s"]) >= 2 and len(u["oth"]["s"]) >= 1, ["take_until", "end:" + (want[-1][0] if want else "-")]
    if "index" in case:
        ctx, rec, i = Ctx(), Rec(), case["index"]

        async def main(loop):
            await rx.AsyncRx(build_source(ctx, case["src"]))[i].subscribe_async(rec)
            await settle()

        run_case(main, what="index")
        vs, _ = script_trace(ctx, case["src"]["s"])
        want = trace_notes([vs[i]] if -len(vs) <= i < len(vs) else [], ("C",))
        if not same_notes(rec.notes, want):
            raise Violation(f"source[{i}] of {vs!r}: got {fmt_notes(rec.notes)}, expected {fmt_notes(want)}")
        return len(vs) >= 2, ["index"]
    ctx, rec = run_pipeline(case)
    vs, term, _ = expect_notes(rec, ctx, case)
    n = sum(1 for x in case["src"]["s"] if x[1] == "N")
    labels = [o[0] for o in case["ops"]] + ["src:" + case["src"]["k"], f"term:{term[0] if term else None}"]
    return n >= 2, labels + (["long"] if n > 40 else [])
