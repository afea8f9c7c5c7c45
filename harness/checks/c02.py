"""C02: notifications are delivered one at a time, in arrival order, under concurrent producers."""
from __future__ import annotations

import asyncio

import aioreactive as rx
from hypothesis import strategies as st

from ..kit import many, Boom, Hot, Rec, Violation, fmt_notes, num, pause, require, run_case, same_notes, settle, trace_notes, val
from ..pipes import LONG, long_op, Ctx, build_op, idx_st, model_op, op_st, zip_seq

COUNTS = {"quick": 42000, "thorough": 350000}
RULE = ("one to three hot sources fed by independent tasks that never wait for each other (same instant or spread out), "
        "through an operator that serialises (positional, indexed, zipping, merging, combining, flattening, switching, "
        "debouncing, delaying, from_iterable) and optionally through further operators, into a slow observer. "
        "Non-trivial: a notification was produced while the observer was still handling an earlier one.")

# single-source operators that serialise, with the model of what must come out
SER1 = ["mapi", "mapi_async", "filteri", "skip", "take", "take_last", "skip_last", "distinct", "zip_seq", "delay", "merge_empty"]
SERN = ["merge", "combine_latest", "with_latest_from", "take_until", "concat", "merge_seq"]
SERI = ["flat_map", "flat_mapi", "flat_map_async", "merge_inner", "concat_map", "switch", "flat_map_latest_async"]
POST = ["map", "map_async", "filter", "scan", "scan_async", "choose", "starmap", "take", "skip", "ident", "delay"]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["one", "one", "multi", "multi", "inner", "iter", "debounce"]))
    spread = draw(st.sampled_from(["tie", "grid", "mixed"]))
    n = draw(many(2, 9, 50))
    nsrc = {"one": 1, "iter": 1, "debounce": 1}.get(kind, 3)
    ev, t = [], 1.0
    for j in range(n):
        if spread == "grid" or (spread == "mixed" and draw(st.booleans())):
            t += draw(st.sampled_from([0.25, 0.5, 1.0]))
        ev.append([t, draw(st.integers(0, nsrc - 1)), "N", draw(idx_st()) if kind in ("one", "iter") else j])
    for s in range(nsrc):
        term = draw(st.sampled_from("CCEN"))
        if term != "N":
            t += draw(st.sampled_from([0, 0.25, 1.0]))
            ev.append([t, s, term, f"e{s}" if term == "E" else None])
    names = {"one": SER1, "multi": SERN, "inner": SERI, "iter": ["ident"], "debounce": ["ident"]}[kind]
    op = [draw(st.sampled_from(SERN)), {}] if kind == "multi" else draw(op_st(names, raising=False))
    if op[0] == "concat_map" or op[0] == "merge_inner":
        op[1]["mc"] = draw(st.sampled_from([0, 1, 2]))
    if op[0] == "delay":
        op[1]["t"] = draw(st.sampled_from([0.25, 1.0]))
    post = [draw(op_st(POST, raising=False)) for _ in range(draw(st.integers(0, 2)))]
    delays = draw(st.lists(st.sampled_from([0.25, 0.75, 1.5, 3, -1, -2, -5, 0]), min_size=1, max_size=4))
    return {"kind": kind, "ev": ev, "op": op, "post": post, "obs": delays,
            "dt": draw(st.sampled_from([0.1, 0.3]))}


def enumerate_cases(tier):
    for name in SER1 + SERN + SERI:
        kind = "one" if name in SER1 else "multi" if name in SERN else "inner"
        nsrc = 1 if kind == "one" else 3
        ev = [[1.0 + (0.25 * (j // 3) if kind == "inner" else 0), j % nsrc, "N", 100 + j if kind == "one" else j] for j in range(LONG)]
        ev += [[ev[-1][0] + 1, s, "C", None] for s in range(nsrc)]
        op = long_op(name)
        if kind == "inner":
            op[1].update(inners=[{"k": "task", "s": [[0, "N", 1], [0, "C", None]]}], mc=0, d=0)
        if name == "delay":
            op[1]["t"] = 1.0
        if name == "zip_seq":
            op[1]["k"] = LONG
        yield {"kind": kind, "ev": ev, "op": op, "post": [], "obs": [-1], "dt": 0.1}


def execute(case):
    ctx = Ctx()
    rec = Rec(delays=case["obs"])
    kind, (name, p) = case["kind"], case["op"]
    hots = [Hot() for _ in range(3)]
    busy = [0, None]

    def inner(x, *rest):
        return hots[1 + num(p["salt"], x, 2)]

    async def main(loop):
        h = hots[0]
        if kind == "one":
            s = build_op(ctx, 0, case["op"])(h)
        elif kind == "debounce":
            s = rx.debounce(case["dt"])(h)
        elif kind == "iter":
            s = rx.from_iterable([val(e[3]) for e in case["ev"] if e[2] == "N"])
        elif kind == "multi":
            a, b = hots[1], hots[2]
            s = {"merge": lambda: rx.pipe(h, rx.merge(a), rx.merge(b)), "merge_seq": lambda: rx.merge_seq([h, a, b]),
                 "combine_latest": lambda: rx.combine_latest(a)(h), "take_until": lambda: rx.take_until(a)(h),
                 "with_latest_from": lambda: rx.AsyncRx(h).with_latest_from(a),
                 "concat": lambda: rx.pipe(h, rx.concat(a), rx.concat(b))}[name]()
        else:
            if name == "merge_inner":
                s = rx.pipe(h, rx.map(inner), rx.merge_inner(p["mc"]))
            elif name == "concat_map":
                s = rx.pipe(h, rx.map(inner), rx.merge_inner(1))
            elif name == "switch":
                s = rx.pipe(h, rx.map(inner), rx.switch_latest())
            elif name == "flat_map":
                s = rx.pipe(h, rx.flat_map(inner))
            elif name == "flat_mapi":
                s = rx.pipe(h, rx.flat_mapi(inner))
            else:
                async def ainner(x):
                    await pause(p.get("d", 0))
                    return inner(x)
                s = rx.pipe(h, getattr(rx, name)(ainner))
        for i, op in enumerate(case["post"]):
            s = build_op(ctx, 10 + i, op)(s)
        await s.subscribe_async(rec)
        errors = []

        async def one(hot, note):
            busy[0] += rec.active
            try:
                await hot.emit(note)
            except Exception as ex:
                errors.append(ex)

        if kind != "iter":
            tasks = []
            for t, si, k, x in case["ev"]:
                if t > loop.time():
                    await asyncio.sleep(t - loop.time())
                note = ("N", val(x) if kind == "one" else (si, x)) if k == "N" else ("E", ctx.boom(x)) if k == "E" else ("C",)
                tasks.append(loop.create_task(one(hots[si], note)))
            await asyncio.sleep(900)
            for t in tasks:
                require(t.done(), "%s: a producer is still blocked long after everything was delivered", name)
        await settle()
        require(not errors, "%s: producer got %r", name, errors[:1])

    run_case(main, what=f"{kind}/{name}")
    if rec.overlap is not None:
        k, note = rec.overlap
        raise Violation(f"{kind}/{name}: notification {k} {note} delivered while an earlier one was still being handled: "
                        f"{fmt_notes(rec.notes)}")
    rec.check(f"{kind}/{name}")
    # what came out, where the arrival order decides it
    mctx = Ctx()
    mctx.booms = ctx.booms
    evs = [(si, k, x) for _t, si, k, x in case["ev"]]
    if kind == "multi" and name in ("merge", "merge_seq") and not case["post"]:
        wants = merged_terms(case["ev"], ctx)
        for s in range(3):
            got = [v for v in rec.values if v[0] == s]
            want = [(s, x) for si, k, x in evs if k == "N" and si == s]
            ok = got == want if not any(w and w[0] == "E" for w in wants) else got == want[:len(got)]
            require(ok, "%s: source %d delivered %r, produced %r", name, s, got, want)
        require(any(same_notes([rec.term] if rec.term else [], [w] if w else []) for w in wants),
                "%s: ended with %r, expected one of %r", name, rec.term, wants)
    if kind in ("one", "iter"):
        vs = [val(x) for si, k, x in evs if k == "N"]
        term = None
        if kind == "iter":
            term = ("C",)
        else:
            vs = []
            for si, k, x in evs:
                if k == "N":
                    vs.append(val(x))
                else:
                    term = ("E", ctx.boom(x)) if k == "E" else ("C",)
                    break
        chain = [] if kind == "iter" else [(0, case["op"])]
        for pos, op in chain + [(10 + i, o) for i, o in enumerate(case["post"])]:
            vs, term = model_op(mctx, pos, op)(vs, term)
        want = trace_notes(vs, term)
        require(same_notes(rec.notes, want), "%s/%s: got %s, produced in order %s", kind, name, fmt_notes(rec.notes), fmt_notes(want))
    return (busy[0] > 0 or kind == "iter") and len(rec.notes) > 1, [kind, "op:" + name] + ["post"] * bool(case["post"])


def merged_terms(ev, ctx):
    """Acceptable terminals: errors that coincide may overtake each other (and a completion)."""
    done, first, out = set(), None, []
    for t, si, k, x in ev:
        if first is not None and t > first:
            break
        if k == "E":
            first = t
            out.append(("E", ctx.boom(x)))
        elif k == "C":
            done.add(si)
            if len(done) == 3:
                first = t
                out.append(("C",))
    return out or [None]
