"""C11: errors reach the observer, once, as the same exception object."""
from __future__ import annotations

import asyncio

import aioreactive as rx
from hypothesis import strategies as st

from ..kit import Boom, BoomStop, Hot, Probe, Rec, Violation, fmt_notes, pause, require, run_case, settle, val
from ..pipes import Ctx, aio, build_op, build_source, op_st

COUNTS = {"quick": 48000, "thorough": 350000}
RULE = ("an error injected at a random place (source, iterable, awaitable, factory, subscription, user function of any "
        "operator, second or inner source, the observer itself) below up to four random operators that never swallow "
        "errors, above any kind of source, into an observer, an async iterator, run() or a reactivex bridge. "
        "Non-trivial: at least one operator lies between the error and the sink.")

# never terminate early by themselves and let errors through
THROUGH = ["map", "map_async", "mapi", "mapi_async", "starmap", "filter", "filter_async", "filteri", "choose",
           "choose_async", "starfilter", "skip", "skip_last", "take_last", "distinct", "scan", "scan_async", "reduce",
           "reduce_async", "delay", "debounce", "ident", "merge_empty", "getitem0", "take_big", "merge_never",
           "combine_never", "latest_never", "until_never", "concat_after", "flat_single", "switch_single", "retry0",
           "catch_rethrow", "zip_inf", "chained"]
KEEP = ["map", "map_async", "mapi", "mapi_async", "starmap", "skip0", "scan", "scan_async", "delay", "ident", "merge_empty",
        "take_big", "merge_never", "until_never", "concat_after", "zip_inf", "chained", "skip_last0", "debounce0", "slice0"]

INJ = ["source", "source", "fn", "fn", "observer", "observer", "inner", "inner_sub", "other", "iter", "aiter", "of_async",
       "factory", "outer_fail", "handler", "zipseq", "acc", "interval", "eq"]
FN = ["map", "map_async", "mapi", "mapi_async", "starmap", "starfilter", "filter", "filter_async", "filteri", "choose", "choose_async"]


# take errors raised downstream of them and report them
GUARDS = {"skip0", "take_big", "merge_never", "merge_empty", "until_never", "concat_after", "zip_inf", "skip_last0", "debounce0", "mapi",
          "mapi_async", "delay", "slice0"}


@st.composite
def through(draw, names):
    name = draw(st.sampled_from(names))
    try_names = {"skip0", "take_big", "merge_never", "combine_never", "latest_never", "until_never", "concat_after", "flat_single",
                 "switch_single", "retry0", "catch_rethrow", "zip_inf", "chained", "skip_last0", "debounce0", "slice0", "getitem0"}
    if name in try_names:
        return [name, {}]
    return draw(op_st([name], raising=False))


@st.composite
def cases(draw):
    inj = draw(st.sampled_from(INJ))
    sink = draw(st.sampled_from(["observer", "observer", "observer", "iter", "run", "bridge"]))
    if inj == "observer":
        sink = "observer"
    names = KEEP if inj == "observer" else THROUGH
    n = draw(st.integers(0, 5))
    src = {"k": draw(st.sampled_from(["task", "task", "sync", "iter", "aiter", "subj", "ssubj"])), "n": max(n, 1) if inj == "observer" else n,
           "g": draw(st.sampled_from([0, -1, 0.5, 1, 2]))}
    if src["k"] == "sync":
        src["g"] = 0
        if sink == "iter":
            src["k"] = "task"
    return {"inj": inj, "sink": sink, "src": src, "k": draw(st.integers(0, 3)), "fn": draw(st.sampled_from(FN)),
            "op": draw(st.sampled_from(["flat_map", "flat_mapi", "flat_map_async", "concat_map", "switch", "flat_map_latest_async"])),
            "two": draw(st.sampled_from(["merge", "combine_latest", "with_latest_from", "take_until", "concat"])),
            "mode": draw(st.sampled_from(["task", "sync"])), "stop": draw(st.integers(0, 7)) == 0, "hot": draw(st.integers(0, 3)) == 0,
            "below": [draw(through(KEEP)) for _ in range(draw(st.integers(0, 2)))] if inj in ("fn", "observer", "inner", "other", "acc") else [],
            "above": [draw(through(names)) for _ in range(draw(st.integers(0, 4)))],
            "d": draw(st.sampled_from([0, 0, -1, 0.5])), "obs": draw(st.sampled_from([[], [], [-1], [0.25], [1.5, 0]]))}


def build_through(ctx, pos, op):
    name = op[0]
    table = {
        "skip0": lambda: rx.skip(0), "take_big": lambda: rx.take(1000), "merge_never": lambda: rx.merge(rx.never()),
        "combine_never": lambda: rx.combine_latest(rx.never()), "until_never": lambda: rx.take_until(rx.never()),
        "latest_never": lambda: (lambda s: rx.AsyncRx(s).with_latest_from(rx.never())),
        "concat_after": lambda: rx.concat(rx.never()), "flat_single": lambda: rx.flat_map(rx.single),
        "switch_single": lambda: (lambda s: rx.pipe(s, rx.map(rx.single), rx.switch_latest())),
        "retry0": lambda: rx.retry(0), "catch_rethrow": lambda: rx.catch(lambda ex: rx.pipe(rx.never(), rx.merge(_fail(ex)))),
        "zip_inf": lambda: rx.mapi(lambda x, i: x), "chained": lambda: (lambda s: rx.AsyncRx(s).filter(lambda _x: True).map(lambda x: x)),
        "skip_last0": lambda: rx.skip_last(0), "debounce0": lambda: rx.skip(0), "slice0": lambda: (lambda s: rx.AsyncRx(s)[0:]),
        "getitem0": lambda: (lambda s: rx.AsyncRx(s)[1:]),
    }
    return table[name]() if name in table else build_op(ctx, pos, op)


def _fail(ex):
    return Probe([(0, "E", ex)])


def execute(case):
    ctx = Ctx()
    inj, sink, n, k = case["inj"], case["sink"], case["src"]["n"], case["k"]
    keep = case["src"]["k"]
    stages = case["below"] + (case["above"] if inj == "observer" else [])
    if case.get("hot") and (inj in ("zipseq", "acc", "inner", "inner_sub", "other") or (
            inj in ("fn", "observer") and any(o[0] in GUARDS for o in stages))):
        keep = "xsubj"  # whoever feeds the source does not report what is raised at it: the operators have to
    if case.get("stop") and inj == "fn" and sink in ("observer", "bridge"):
        # a user function lets a StopIteration escape, which Python replaces when it leaves a coroutine
        ctx.booms["the"] = BoomStop("the")
    boom = ctx.boom("the")

    def is_it(ex):
        return ex is boom or (type(boom) is BoomStop and ex is not None and (is_it(ex.__cause__) or is_it(ex.__context__)))

    def script(term):
        s = [[case["src"]["g"], "N", 200 + i] for i in range(n)]
        return s + ([[case["src"]["g"], "E", "the"]] if term == "E" else [[case["src"]["g"], "C", None]] if term == "C" else [])

    def plain(term, kind=None):
        kind = kind or keep
        if term == "N" and kind == "iter":
            kind = "aiter"
        return build_source(ctx, {"k": kind, "s": script(term)})

    raise_on = 200 + min(k, max(n - 1, 0))

    def touches(x):
        return x == raise_on or (isinstance(x, tuple) and any(touches(y) for y in x))

    def user(*args):
        if counter(args):
            raise boom
        return args[0]

    count = [0]

    def counter(args):
        count[0] += 1
        return count[0] - 1 == min(k, n - 1)

    def fail_inner(*_):
        m = case["mode"]
        if inj == "inner_sub":
            return Probe([], subscribe_exc=boom)
        return Probe([(case["d"] if m == "task" else 0, "E", boom)], mode=m)

    def build():
        needs = n > 0
        if inj == "source":
            s = plain("E")
        elif inj == "outer_fail":
            from aioreactive.create import fail
            s = fail(boom)
        elif inj in ("fn", "acc") and needs:
            s = plain("N")
            for i, op in enumerate(case["below"]):
                s = build_through(ctx, 20 + i, op)(s)
            f = case["fn"] if inj == "fn" else ("scan" if k % 2 else "reduce_async")
            ap = {"d": case["d"]}
            if f in ("map", "mapi"):
                s = getattr(rx, f)(user)(s)
            elif f in ("map_async", "mapi_async"):
                s = getattr(rx, f)(aio(user, ap))(s)
            elif f == "starmap":
                s = rx.pipe(s, rx.map(lambda x: (x, 1)), rx.starmap(user))
            elif f == "starfilter":
                s = rx.pipe(s, rx.map(lambda x: (x, 1)), rx.starfilter(user))
            elif f in ("filter", "filteri"):
                s = getattr(rx, f)(user)(s)
            elif f == "filter_async":
                s = rx.filter_async(aio(user, ap))(s)
            elif f == "choose":
                s = rx.choose(lambda x: rx_some(user(x)))(s)
            elif f == "choose_async":
                s = rx.choose_async(aio(lambda x: rx_some(user(x)), ap))(s)
            elif f == "scan":
                s = rx.scan(user, 0)(s)
            else:
                s = rx.reduce_async(aio(user, ap), 0)(s)
        elif inj in ("inner", "inner_sub") and needs:
            s = plain("N")
            for i, op in enumerate(case["below"]):
                s = build_through(ctx, 20 + i, op)(s)
            o, ap = case["op"], {"d": case["d"]}
            if o in ("flat_map", "flat_mapi"):
                s = getattr(rx, o)(fail_inner)(s)
            elif o in ("flat_map_async", "flat_map_latest_async"):
                s = getattr(rx, o)(aio(fail_inner, ap))(s)
            elif o == "concat_map":
                s = rx.pipe(s, rx.map(fail_inner), rx.merge_inner(1))
            else:
                s = rx.pipe(s, rx.map(fail_inner), rx.switch_latest())
        elif inj == "other":
            two = case["two"]
            other = fail_inner() if two != "concat" else Probe([(case["d"], "E", boom)])
            s = plain("C" if two == "concat" else "N")
            if two == "concat" and case["below"]:
                pass
            s = (rx.AsyncRx(s).with_latest_from(other) if two == "with_latest_from" else getattr(rx, two)(other)(s))
        elif inj == "iter":
            s = build_source(ctx, {"k": "iter", "s": script("E")})
        elif inj == "aiter":
            s = build_source(ctx, {"k": "aiter", "s": script("E")})
        elif inj == "of_async":
            async def work():
                await pause(case["d"])
                raise boom
            s = rx.of_async(work()) if k % 2 else rx.from_async(work())
        elif inj == "factory":
            def factory():
                raise boom
            s = rx.defer(factory)
        elif inj == "handler":
            def handler(_ex):
                raise boom
            s = rx.pipe(Probe([(case["d"], "E", ctx.boom("first"))]), rx.catch(handler))
        elif inj == "zipseq":
            from ..pipes import CountSeq, zip_seq
            s = plain("E") if zip_seq is None or not needs else zip_seq(CountSeq(min(k, n - 1), boom))(plain("N"))
        elif inj == "interval":
            s = rx.pipe(rx.interval(1, 1), rx.map(user_interval))
        elif inj == "eq" and n > 1:
            class Odd(int):
                def __eq__(self, other):
                    if other == raise_on or int(self) == raise_on:
                        raise boom
                    return False

                __hash__ = int.__hash__

            s = rx.pipe(plain("N"), rx.map(Odd), rx.distinct_until_changed)
        elif inj == "observer":
            s = plain("N") if k != 1 or keep == "xsubj" else rx.interval(0.5, 1) if case["mode"] == "sync" else plain("N")
            for i, op in enumerate(case["below"]):
                s = build_through(ctx, 20 + i, op)(s)
        else:
            s = plain("E")
        for i, op in enumerate(case["above"]):
            s = build_through(ctx, i, op)(s)
        return s

    def user_interval(i):
        if i == k:
            raise boom
        return i

    raise_at = min(k, n - 1) if inj == "observer" else None
    if inj == "observer" and any(o[0] == "debounce" for o in case["above"] + case["below"]):
        raise_at = 0
    rec = Rec(delays=case["obs"], raise_at=raise_at, raise_exc=boom)
    out = {}

    async def main(loop):
        s = build()
        if sink == "observer":
            try:
                await s.subscribe_async(rec)
            except Boom:
                if inj != "observer" or rec.term is None:
                    raise
        elif sink == "iter":
            got = []
            try:
                async for x in rx.to_async_iterable(s):
                    got.append(x)
            except Exception as ex:
                out["exc"] = ex
            else:
                out["exc"] = None
        elif sink == "run":
            try:
                await rx.run(s, timeout=300)
            except Exception as ex:
                out["exc"] = ex
        else:
            from aioreactive.leave import to_observable
            log = []
            out["log"] = log
            to_observable(s).subscribe(on_next=lambda v: log.append(("N", v)), on_error=lambda e: log.append(("E", e)),
                                       on_completed=lambda: log.append(("C",)))
        await asyncio.sleep(600)
        await settle()

    what = f"{inj}->{'|'.join(o[0] for o in case['above'])}->{sink}"
    run_case(main, what=what)
    if sink == "observer":
        rec.check(what)
        if not (rec.term and rec.term[0] == "E" and is_it(rec.term[1])):
            raise Violation(f"{what}: error not delivered, got {fmt_notes(rec.notes)}")
        if inj == "observer":
            require(len(rec.values) == raise_at + 1, "%s: values delivered after the observer failed: %s", what, fmt_notes(rec.notes))
    elif sink == "bridge":
        terms = [x for x in out["log"] if x[0] != "N"]
        require(len(terms) == 1 and terms[0][0] == "E" and is_it(terms[0][1]), "%s: bridge got %s", what, fmt_notes(out["log"]))
    else:
        require(out.get("exc") is boom, "%s: raised %r instead of the injected error", what, out.get("exc"))
    return bool(case["above"] or case["below"]), ["inj:" + inj, "sink:" + sink] + ["unreported"] * (keep == "xsubj") + ["op:" + o[0] for o in case["above"]]


def rx_some(x):
    from expression import Some
    return Some(x)
