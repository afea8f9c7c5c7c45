"""C24: chained methods and piped functions are the same operators."""
from __future__ import annotations

import asyncio
import json

import aioreactive as rx
from hypothesis import strategies as st

from ..kit import Rec, Violation, fmt_note, require, run_case, same, settle, val
from ..pipes import (Ctx, aio, build_op, build_source, describe, f_acc, f_choose, f_map, f_pred, f_pred_truthy, inner_mapper,
                     instant_sync, obs_delays_st, op_st, slow_probes, source_st, spread)

COUNTS = {"quick": 27000, "thorough": 250000}
RULE = ("a random pipeline of 1-4 operators is built once by chaining AsyncRx methods and once by piping the functions of "
        "the same name, over the same random source; both are run and must deliver the same notifications at the same "
        "times, and the intermediate chained observables stay usable and unchanged. They are consumed by an observer, callbacks or async iteration. Non-trivial: at least two "
        "notifications were compared.")
ASSUMPTIONS = ["notifications that fall on the same virtual instant may be ordered differently"]

METHODS = ["choose", "choose_async", "combine_latest", "concat", "debounce", "delay", "distinct", "filter", "filteri", "filter_async",
           "flat_map", "flat_map_async", "flat_map_latest_async", "map", "merge", "reduce", "reduce_async", "skip", "skip_last",
           "starfilter", "starmap", "take", "take_last", "take_until", "with_latest_from", "getitem"]


@st.composite
def cases(draw):
    src = draw(source_st(max_len=6))
    ops = [draw(op_st(METHODS, raising=draw(st.booleans()), tag=f"o{i}")) for i in range(draw(st.integers(1, 4)))]
    instant_sync([src, ops])
    draw(slow_probes([src, ops]))
    for o in ops:
        if o[0] == "getitem" and draw(st.integers(0, 3)) == 0:
            o[1]["int"] = draw(st.integers(-5, 6))
    how = draw(st.sampled_from(["observer"] * 4 + ["callbacks", "iter"]))
    if how == "iter" and '"sync"' in json.dumps([src, ops]):
        how = "observer"
    return {"src": src, "ops": ops, "how": how, "mid": draw(st.integers(0, len(ops))), "obs": draw(obs_delays_st()), "wrap": draw(st.sampled_from(["AsyncRx", "create", "as_chained"])),
            "unwrap": draw(st.sampled_from(["none", "as_async", "as_async_fn"]))}


def method(ctx, pos, op, s):
    """Apply op to the chained observable s by calling its method."""
    name, p = op
    if name == "starmap":
        return s.map(spread(p)).starmap(f_map(ctx, pos, p))
    if name == "starfilter":
        return s.map(spread(p)).starfilter(f_pred_truthy(ctx, pos, p))
    if name == "distinct":
        return s.distinct_until_changed()
    if name == "getitem":
        return s[p["int"]] if "int" in p else s[p["a"]:p["b"]:p["c"]]
    if name in ("combine_latest", "concat", "merge", "take_until", "with_latest_from"):
        return getattr(s, name)(build_source(ctx, p["src"]))
    arg = {"choose": f_choose, "choose_async": f_choose, "filter": f_pred_truthy, "filteri": f_pred_truthy, "filter_async": f_pred_truthy,
           "map": f_map}.get(name)
    if arg is not None:
        f = arg(ctx, pos, p)
        return getattr(s, name)(aio(f, p) if name.endswith("_async") else f)
    if name in ("flat_map", "flat_map_async", "flat_map_latest_async"):
        f = inner_mapper(ctx, p)
        return getattr(s, name)(aio(f, p) if name.endswith("_async") else f)
    if name in ("reduce", "reduce_async"):
        f = f_acc(ctx, pos, p)
        return getattr(s, name)(aio(f, p) if name.endswith("_async") else f, val(p["init"]))
    if name in ("skip", "skip_last", "take", "take_last"):
        return getattr(s, name)(p["n"])
    return getattr(s, name)(p["t"])


def piped(ctx, pos, op):
    name, p = op
    if name == "getitem":
        from ..pipes import _slice
        if "int" in p:
            k = p["int"]
            a, b, c = k, (k + 1 or None), 1
        else:
            a, b, c = p["a"], p["b"], p["c"] or 1
        return _slice(a, b, c) if _slice is not None else (lambda s: rx.AsyncRx(s)[a:b:c])
    if name == "with_latest_from":
        o = build_source(ctx, p["src"])
        return rx.with_latest_from(o)
    return build_op(ctx, pos, op)


def run(case, chained):
    ctx = Ctx()
    rec, again, middle = Rec(delays=case["obs"]), Rec(), Rec()
    what = describe(case["src"], case["ops"]) + (" chained" if chained else " piped")

    async def consume(s, rec):
        if case["how"] == "observer":
            await s.subscribe_async(rec)
        elif case["how"] == "callbacks":
            await s.subscribe_async(rec.asend, rec.athrow, rec.aclose)
        else:
            async def pull():
                try:
                    async for x in (s.to_async_iterable() if chained and isinstance(s, rx.AsyncRx) else rx.to_async_iterable(s)):
                        await rec.asend(x)
                except Exception as ex:
                    await rec.athrow(ex)
                else:
                    await rec.aclose()

            pulls.append(asyncio.get_running_loop().create_task(pull()))

    pulls = []

    async def main(loop):
        s = build_source(ctx, case["src"])
        if chained:
            s = {"AsyncRx": rx.AsyncRx, "create": rx.AsyncRx.create, "as_chained": rx.as_chained}[case["wrap"]](s)
        steps = [s]
        for pos, op in enumerate(case["ops"]):
            if chained:
                nxt = method(ctx, pos, op, s)
                require(isinstance(nxt, rx.AsyncRx) and nxt is not s, "%s: method %s did not return a new chained observable", what, op[0])
            else:
                nxt = piped(ctx, pos, op)(s)
            s = nxt
            steps.append(s)
        if chained and case["unwrap"] == "as_async":
            s = s.as_async_observable()
        elif chained and case["unwrap"] == "as_async_fn":
            s = rx.as_async_observable(s)
        await consume(s, rec)
        await asyncio.sleep(600)
        # what the chain was built from is still what it was
        await steps[0].subscribe_async(again)
        await asyncio.sleep(600)
        await consume(steps[case.get("mid", 0)], middle)
        await asyncio.sleep(600)
        await settle()
        for t in pulls:
            t.cancel()

    run_case(main, what=what)
    if chained:
        from ..pipes import script_trace
        vs, term = script_trace(ctx, case["src"]["s"])
        require(len(again.values) == len(vs) and all(same(a, b) for a, b in zip(again.values, vs)),
                "%s: the source of the chain was changed by chaining", what)
    return rec.events, middle.events


def key(n):
    return (n[0], getattr(n[1], "tag", str(n[1]))) if n[0] == "E" else n


def differ(a, b):
    """Different notifications or times; the order within an instant is free."""
    if len(a) != len(b):
        return True
    rest = list(b)
    for t, n in a:
        for m in rest:
            if abs(m[0] - t) < 1e-4 and m[1][0] == n[0] and (n[0] == "C" or key(n) == key(m[1]) or (n[0] == "N" and same(n[1], m[1][1]))):
                rest.remove(m)
                break
        else:
            return True
    return False  # relative order wherever times differ is implied by the times themselves


def execute(case):
    case.setdefault("how", "observer")
    (a, am), (b, bm) = run(case, True), run(case, False)
    what = describe(case["src"], case["ops"])
    if differ(a, b):
        raise Violation(f"{what}: chained gives {show(a)}, piped gives {show(b)}")
    if differ(am, bm):
        raise Violation(f"{what}: after chaining, step {case['mid']} gives {show(am)}, piped {show(bm)}")
    return len(a) > 1, ["op:" + o[0] for o in case["ops"]] + [case["wrap"], case["unwrap"], case["how"]]


def show(ev):
    return "[" + ", ".join(f"{t:.2f}:{fmt_note(x)}" for t, x in ev[:16]) + "]"
