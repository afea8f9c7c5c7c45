"""Sources and operators as JSON-able specifications, with reference models.

A *source spec* is {"k": kind, "s": script, ...}; a script is a list of
[gap, kind, payload] with kind N/E/C; payload is a value index (N) or an error
tag (E).  An *op spec* is [name, {params}].  `build` turns specs into real
aioreactive pipelines, `model` into the expected (values, terminal) trace.
"""

from __future__ import annotations

import asyncio

import aioreactive as rx
from expression import Nothing, Some, pipe
from hypothesis import strategies as st

from expression.system import ObjectDisposedException

from .kit import (Boom, many, Probe, Rec, Violation, bit, fmt_notes, num, pause, require, run_case, same, same_notes,  # noqa
                  same_seq, settle, trace_notes, val)
from .kit import AsyncObservable, AsyncObserver, AsyncAnonymousObserver

try:  # not re-exported, checked when available
    from aioreactive.combine import zip_seq
except Exception:  # pragma: no cover
    zip_seq = None
try:
    from aioreactive.transform import concat_map, flat_map_latest, flat_mapi_async
except Exception:  # pragma: no cover
    concat_map = flat_map_latest = flat_mapi_async = None


try:
    from aioreactive.filtering import slice as _slice
except Exception:  # pragma: no cover
    _slice = None


HOSTILE = 26  # the value that cannot be compared


class Ctx:
    def __init__(self):
        self.booms = {}
        self.probes = []
        self.calls = []
        self.iters = []

    def boom(self, tag):
        tag = str(tag)
        if tag not in self.booms:
            self.booms[tag] = Boom(tag)
        return self.booms[tag]


# ------------------------------------------------------------------ sources
def script_trace(ctx, script):
    vs, term = [], None
    for _gap, kind, payload in script:
        if kind == "N":
            vs.append(val(payload))
        elif kind == "E":
            term = ("E", ctx.boom(payload))
            break
        else:
            term = ("C",)
            break
    return vs, term


def real_script(ctx, script):
    return [(g, k, val(p) if k == "N" else ctx.boom(p) if k == "E" else None) for g, k, p in script]


class SubjectSource(AsyncObservable):
    """A fresh library subject per subscription, fed by a task."""

    def __init__(self, ctx, cls, script, reports=True):
        self.ctx = ctx
        self.cls = cls
        self.script = script
        self.reports = reports  # the producer sends on what is raised at it

    async def subscribe_async(self, send=None, throw=None, close=None):
        obv = send if isinstance(send, AsyncObserver) else AsyncAnonymousObserver(send, throw, close)
        subject = self.cls()
        sub = await subject.subscribe_async(obv)

        async def feed():
            for g, k, p in self.script:
                await pause(g)
                try:
                    if k == "N":
                        await subject.asend(p)
                    elif k == "E":
                        return await subject.athrow(p)
                    else:
                        return await subject.aclose()
                except Exception as ex:
                    if isinstance(ex, ObjectDisposedException) and not isinstance(ex, Boom):
                        return  # a single subject is disposed with its subscription
                    if not self.reports:
                        return
                    return await subject.athrow(ex)

        asyncio.get_running_loop().create_task(feed())
        return sub


class Working:
    waiting = True


def instant_sync(specs):
    """Make every source that emits while being subscribed do so without pausing."""
    if isinstance(specs, dict):
        if specs.get("k") == "sync":
            for x in specs["s"]:
                x[0] = 0
        for v in specs.values():
            instant_sync(v)
    elif isinstance(specs, list):
        for v in specs:
            instant_sync(v)
    return specs


class Endless:
    """An iterable that nobody ever gets to the end of."""

    LIMIT = 20000

    def __init__(self):
        self.pulled = 0

    def __iter__(self):
        for i in range(self.LIMIT):
            self.pulled = max(self.pulled, i)
            yield i
        self.pulled = self.LIMIT


def build_source(ctx, spec):
    kind = spec["k"]
    script = real_script(ctx, spec["s"])
    if kind in ("task", "sync"):
        p = Probe(script, mode=kind, stop_on_dispose=not spec.get("deaf"), obey_grammar=not spec.get("bad"),
                  dispose_delay=spec.get("dd", 0), subscribe_delay=spec.get("sd", 0))
        ctx.probes.append(p)
        return p
    if kind == "sfail":  # cannot be subscribed to, which takes it a while
        p = Probe([], subscribe_exc=ctx.boom("sfail"), subscribe_delay=spec.get("sd", 0))
        ctx.probes.append(p)
        return p
    if kind == "iter":
        def items():
            for _g, k, p in script:
                if k == "N":
                    yield p
                elif k == "E":
                    raise p
                else:
                    return

        class Again:
            def __iter__(self):
                return items()

        return rx.from_iterable(Again())
    if kind == "aiter":
        class AIter:
            def __init__(self):
                self.i = 0
                ctx.iters.append(self)
                self.waiting = False  # somebody waits for the next item
                self.pulls = 0

            def __aiter__(self):
                return self

            async def __anext__(self):
                self.pulls += 1
                self.waiting = True
                try:
                    if self.i >= len(script):
                        await asyncio.get_running_loop().create_future()
                    g, k, p = script[self.i]
                    self.i += 1
                    await pause(g)
                    if k == "N":
                        return p
                    if k == "E":
                        raise p
                    raise StopAsyncIteration
                finally:
                    self.waiting = False

        class AAgain:
            def __aiter__(self):
                return AIter()

        return rx.from_async_iterable(AAgain())
    if kind == "ival":  # every gap is 1 and the script ends with an error
        def pick(i):
            _g, k, p = script[i]
            if k == "E":
                raise p
            return p

        return rx.pipe(rx.interval(1, 1), rx.map(pick))
    if kind == "subj":
        return SubjectSource(ctx, rx.AsyncSubject, script)
    if kind == "coro":  # one value or error from an awaitable; once only
        async def work():
            w = Working()
            ctx.iters.append(w)
            try:
                for g, k, p in script:
                    await pause(g)
                    if k == "N":
                        return p
                    if k == "E":
                        raise p
                await asyncio.get_running_loop().create_future()
            finally:
                w.waiting = False

        return rx.from_async(work())
    if kind == "xsubj":
        return SubjectSource(ctx, rx.AsyncSubject, script, reports=False)
    if kind == "ssubj":
        return SubjectSource(ctx, rx.AsyncSingleSubject, script)
    if kind == "endless":  # an iterable without an end
        ctx.endless = Endless()
        return rx.from_iterable(ctx.endless)
    if kind == "single":
        return rx.single(val(spec["v"]))
    if kind == "empty":
        return rx.empty()
    if kind == "never":
        return rx.never()
    raise AssertionError(kind)


@st.composite
def slow_probes(draw, specs, odds=4, how=3):
    """Make some scripted sources slow to subscribe to (sd) or slow to dispose (dd)."""
    found = []

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") in ("task", "sync"):
                found.append(x)
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    if draw(st.integers(0, odds - 1)) == 0:
        walk(specs)
        for x in found:
            pick = draw(st.integers(0, 3)) & how
            if pick & 1:
                x["sd"] = draw(st.sampled_from([-1, -2, 0.25, 1.5]))
            if pick & 2:
                x["dd"] = draw(st.sampled_from([-1, -2, 0.25, 1.5]))
    return specs


def is_slow(specs):
    if isinstance(specs, dict):
        return bool(specs.get("sd") or specs.get("dd")) or any(is_slow(v) for v in specs.values())
    return isinstance(specs, list) and any(is_slow(v) for v in specs)


GAPS_FAST = [0, 0, 0, -1, -2, 1]
GAPS = [0, 0, -1, -2, -3, 1, 1, 2, 0.5]


def idx_st():
    return st.one_of(st.integers(0, 26), st.integers(0, 6), st.integers(100, 130))


@st.composite
def script_st(draw, max_len=8, terms="CEN", gaps=GAPS, tag="src", idx=None, long=0, medium=True):
    """terms: allowed terminals, C, E or N(one)."""
    size = draw(st.integers(0, 199))
    if long and size == 199:
        n = draw(st.integers(50, long))
        ids = [100 + i for i in range(n)]
    elif medium and size >= 190:
        n = draw(st.integers(max_len, 40))
        ids = [100 + i % 31 for i in range(n)]
    else:
        ids = draw(st.lists(idx or idx_st(), max_size=max_len))
    gap = st.sampled_from(gaps)
    uniform = draw(st.booleans())
    g0 = draw(gap)
    out = ([[g0 if uniform else draw(gap), "N", i] for i in ids] if len(ids) <= max_len
           else [[g0 if size < 199 else 0, "N", i] for i in ids])
    t = draw(st.sampled_from(terms))
    if t == "C":
        out.append([draw(gap), "C", None])
    elif t == "E":
        out.append([draw(gap), "E", tag])
    return out


@st.composite
def source_st(draw, max_len=8, terms="CEN", gaps=GAPS, tag="src", kinds=None, long=0, idx=None, medium=True):
    script = draw(script_st(max_len=max_len, terms=terms, gaps=gaps, tag=tag, long=long, idx=idx, medium=medium))
    ks = ["task", "task", "sync", "iter", "aiter", "subj", "ssubj"] if kinds is None else kinds
    if not script or script[-1][1] == "N":
        ks = [k for k in ks if k != "iter"] or ["task"]
    return {"k": draw(st.sampled_from(ks)), "s": script}


LONG = 1300  # longer than the interpreter's recursion limit


def long_source(n=LONG, kind="task", term="C", gap=0, mod=1000):
    return {"k": kind, "s": [[gap, "N", 100 + i % mod] for i in range(n)] + ([[gap, term, "src" if term == "E" else None]] if term != "N" else [])}


def long_op(name):
    """Parameters that let most of a long sequence through."""
    p = {"salt": 1}
    if name in ("skip", "skip_last", "take_last", "take"):
        p = {"n": 600 if name.endswith("p") or name.endswith("st") else 1200}
    elif name in ("getitem", "slice"):
        p = {"a": 3, "b": -7, "c": 2}
    elif name in ACC_OPS:
        p.update(init=100, deep=0)
    return [name, p]


# ------------------------------------------------------------------ user functions
def mk_raise(ctx, pos, p, *args):
    ctx.calls.append((pos, args))
    if p.get("rz") and num(p["salt"] + 77, args, p["rz"]) == 0:
        raise ctx.boom(f"f{pos}")


def f_map(ctx, pos, p):
    def f(*args):
        mk_raise(ctx, pos, p, *args)
        if p.get("const"):
            return val(p["salt"] % 27)
        return ("m", p["salt"]) + args
    return f


def f_pred(ctx, pos, p):
    def f(*args):
        mk_raise(ctx, pos, p, *args)
        return bit(p["salt"], args)
    return f


def f_pred_truthy(ctx, pos, p):
    """Predicate returning truthy/falsy objects rather than bools."""
    pred = f_pred(ctx, pos, p)
    if not p.get("ty"):
        return pred
    return lambda *a: [0] if pred(*a) else None


def f_choose(ctx, pos, p):
    def f(x):
        mk_raise(ctx, pos, p, x)
        if bit(p["salt"], x):
            return Some(("c", x) if not p.get("const") else val(p["salt"] % 27))
        return Nothing
    return f


def f_acc(ctx, pos, p):
    def f(s, x):
        mk_raise(ctx, pos, p, s if not p.get("deep") else 0, x)
        if p.get("const"):
            return val(num(p["salt"], (s, x), 26))
        return ("a", num(p["salt"], (s, x), 1000))
    return f


def aio(f, p):
    async def g(*args):
        d = p.get("d", 0)
        if d:
            await pause(d)
        return f(*args)
    return g


def spread(p):
    def f(x):
        args = (x, "y", x)[: num(p["salt"], x, 4)]
        return list(args) if num(p["salt"], x, 3) == 1 else args  # anything that can be spread
    return f


# ------------------------------------------------------------------ models
class Raised(Exception):
    def __init__(self, exc):
        self.exc = exc


def _elementwise(fn):
    """fn(i, x) -> list of outputs, may raise Boom."""
    def m(vs, term):
        out = []
        for i, x in enumerate(vs):
            try:
                out.extend(fn(i, x))
            except Boom as ex:
                return out, ("E", ex)
        return out, term
    return m


def model_op(ctx, pos, op):
    name, p = op
    if name in ("map", "map_async"):
        f = f_map(ctx, pos, p)
        return _elementwise(lambda i, x: [f(x)])
    if name in ("mapi", "mapi_async"):
        f = f_map(ctx, pos, p)
        return _elementwise(lambda i, x: [f(x, i)])
    if name in ("starmap",):
        f, sp = f_map(ctx, pos, p), spread(p)
        return _elementwise(lambda i, x: [f(*sp(x))])
    if name in ("starfilter",):
        f, sp = f_pred(ctx, pos, p), spread(p)
        return _elementwise(lambda i, x: [sp(x)] if f(*sp(x)) else [])
    if name in ("filter", "filter_async"):
        f = f_pred(ctx, pos, p)
        return _elementwise(lambda i, x: [x] if f(x) else [])
    if name == "filteri":
        f = f_pred(ctx, pos, p)
        return _elementwise(lambda i, x: [x] if f(x, i) else [])
    if name in ("choose", "choose_async"):
        f = f_choose(ctx, pos, p)
        return _elementwise(lambda i, x: f(x).to_list())
    if name == "skip":
        return lambda vs, term: (vs[p["n"]:], term)
    if name == "take":
        return lambda vs, term: (vs[: p["n"]], ("C",)) if len(vs) >= p["n"] > 0 else (vs[: p["n"]], term)
    if name == "take_last":
        def tl(vs, term):
            if term == ("C",):
                return (vs[-p["n"]:] if p["n"] else []), term
            return [], term
        return tl
    if name == "skip_last":
        return lambda vs, term: (vs[: max(0, len(vs) - p["n"])], term)
    if name in ("slice", "getitem"):
        return lambda vs, term: model_slice(vs, term, p)
    if name == "distinct":
        def du(vs, term):
            out, first, last = [], True, None
            for x in vs:
                try:
                    if first or not (x == last):
                        out.append(x)
                except Boom as ex:  # cannot be compared
                    return out, ("E", ex)
                first, last = False, x
            return out, term
        return du
    if name in ("scan", "scan_async", "reduce", "reduce_async"):
        f = f_acc(ctx, pos, p)

        def sc(vs, term):
            out, s = [], val(p["init"])
            for x in vs:
                try:
                    s = f(s, x)
                except Boom as ex:
                    term = ("E", ex)
                    break
                out.append(s)
            if name.startswith("reduce"):
                return (out[-1:] if term == ("C",) else []), term
            return out, term
        return sc
    if name == "zip_seq":
        k = p["k"]

        def zs(vs, term):
            if len(vs) > k:
                return [(x, -i) for i, x in enumerate(vs[:k])], ("C",)
            return [(x, -i) for i, x in enumerate(vs)], term
        return zs
    if name in ("delay", "ident", "merge_empty"):
        return lambda vs, term: (vs, term)
    if name == "concat":
        def cc(vs, term):
            if term == ("C",):
                ws, t2 = script_trace(ctx, p["src"]["s"])
                return vs + ws, t2
            return vs, term
        return cc
    if name == "catch":
        def ca(vs, term):
            if term and term[0] == "E":
                ws, t2 = script_trace(ctx, p["src"]["s"])
                return vs + ws, t2
            return vs, term
        return ca
    raise AssertionError(name)


def model_slice(vs, term, p):
    a, b, c = p["a"], p["b"], p["c"]
    step = c or 1
    if term == ("C",):
        return vs[slice(a, b, step)], term
    # not completed: what can be decided without knowing the end
    if (a is not None and a < 0):
        return [], term
    start = a or 0
    if b is None:
        return vs[start::step], term
    if b < 0:
        known = vs[: max(0, len(vs) + b)]
        return known[start::step], term
    n = b - start
    if n > 0 and len(vs) >= b:
        return vs[start:b:step], ("C",)
    return vs[start:max(b, start):step], term


# early completion for a completed source does not change (values, C)
def model_pipeline(ctx, src, ops):
    vs, term = script_trace(ctx, src["s"])
    for pos, op in enumerate(ops):
        vs, term = model_op(ctx, pos, op)(vs, term)
    return vs, term


# ------------------------------------------------------------------ builders
class CountSeq:
    """Re-iterable 0, -1, -2, ... of length k; may raise at the end."""

    def __init__(self, k, exc=None):
        self.k = k
        self.exc = exc

    def __iter__(self):
        for i in range(self.k):
            yield -i
        if self.exc is not None:
            raise self.exc


def inner_mapper(ctx, p):
    def f(x, *rest):
        spec = p["inners"][num(p["salt"], x, len(p["inners"]))]
        return build_source(ctx, spec)
    return f


def build_op(ctx, pos, op):
    name, p = op
    if name == "map":
        return rx.map(f_map(ctx, pos, p))
    if name == "map_async":
        return rx.map_async(aio(f_map(ctx, pos, p), p))
    if name == "mapi":
        return rx.mapi(f_map(ctx, pos, p))
    if name == "mapi_async":
        return rx.mapi_async(aio(f_map(ctx, pos, p), p))
    if name == "starmap":
        return lambda s: pipe(s, rx.map(spread(p)), rx.starmap(f_map(ctx, pos, p)))
    if name == "starfilter":
        return lambda s: pipe(s, rx.map(spread(p)), rx.starfilter(f_pred_truthy(ctx, pos, p)))
    if name == "filter":
        return rx.filter(f_pred_truthy(ctx, pos, p))
    if name == "filter_async":
        return rx.filter_async(aio(f_pred_truthy(ctx, pos, p), p))
    if name == "filteri":
        return rx.filteri(f_pred_truthy(ctx, pos, p))
    if name == "choose":
        return rx.choose(f_choose(ctx, pos, p))
    if name == "choose_async":
        return rx.choose_async(aio(f_choose(ctx, pos, p), p))
    if name == "skip":
        return rx.skip(p["n"])
    if name == "take":
        return rx.take(p["n"])
    if name == "take_last":
        return rx.take_last(p["n"])
    if name == "skip_last":
        return rx.skip_last(p["n"])
    if name == "getitem":
        return lambda s: rx.AsyncRx(s)[p["a"]:p["b"]:p["c"]]
    if name == "slice":
        if _slice is None:
            return lambda s: rx.AsyncRx(s)[p["a"]:p["b"]:p["c"]]
        return _slice(p["a"], p["b"], p["c"] or 1)
    if name == "distinct":
        return rx.distinct_until_changed
    if name == "scan":
        return rx.scan(f_acc(ctx, pos, p), val(p["init"]))
    if name == "scan_async":
        return rx.scan_async(aio(f_acc(ctx, pos, p), p), val(p["init"]))
    if name == "reduce":
        return rx.reduce(f_acc(ctx, pos, p), val(p["init"]))
    if name == "reduce_async":
        return rx.reduce_async(aio(f_acc(ctx, pos, p), p), val(p["init"]))
    if name == "zip_seq":
        return zip_seq(CountSeq(p["k"]))
    if name == "delay":
        return rx.delay(p["t"])
    if name == "debounce":
        return rx.debounce(p["t"])
    if name == "ident":
        return lambda s: rx.AsyncRx(s).as_async_observable()
    if name == "merge_empty":
        return rx.merge(rx.empty())
    if name == "concat":
        return rx.concat(build_source(ctx, p["src"]))
    if name == "catch":
        return rx.catch(lambda _e: build_source(ctx, p["src"]))
    if name == "retry":
        return rx.retry(p["n"])
    if name == "merge":
        return rx.merge(build_source(ctx, p["src"]))
    if name == "combine_latest":
        return rx.combine_latest(build_source(ctx, p["src"]))
    if name == "with_latest_from":
        o = build_source(ctx, p["src"])
        return lambda s: rx.AsyncRx(s).with_latest_from(o)
    if name == "take_until":
        return rx.take_until(build_source(ctx, p["src"]))
    if name == "flat_map":
        return rx.flat_map(inner_mapper(ctx, p))
    if name == "flat_mapi":
        return rx.flat_mapi(inner_mapper(ctx, p))
    if name == "flat_map_async":
        return rx.flat_map_async(aio(inner_mapper(ctx, p), p))
    if name == "merge_inner":
        return lambda s: pipe(s, rx.map(inner_mapper(ctx, p)), rx.merge_inner(p["mc"]))
    if name == "concat_map":
        return concat_map(inner_mapper(ctx, p)) if concat_map else \
            (lambda s: pipe(s, rx.map(inner_mapper(ctx, p)), rx.merge_inner(1)))
    if name == "switch":
        return lambda s: pipe(s, rx.map(inner_mapper(ctx, p)), rx.switch_latest())
    if name == "flat_map_latest_async":
        return rx.flat_map_latest_async(aio(inner_mapper(ctx, p), p))
    raise AssertionError(name)


def build_pipeline(ctx, src, ops):
    s = build_source(ctx, src)
    for pos, op in enumerate(ops):
        s = build_op(ctx, pos, op)(s)
    return s


# ------------------------------------------------------------------ op strategies
FN_OPS = ["map", "map_async", "mapi", "mapi_async", "starmap", "starfilter", "filter", "filter_async", "filteri",
          "choose", "choose_async"]
POS_OPS = ["skip", "take", "take_last", "skip_last", "getitem", "slice", "distinct"]
ACC_OPS = ["scan", "scan_async", "reduce", "reduce_async"]
INNER_OPS = ["flat_map", "flat_mapi", "flat_map_async", "merge_inner", "concat_map", "switch", "flat_map_latest_async"]
TWO_OPS = ["merge", "combine_latest", "with_latest_from", "take_until", "concat", "catch"]
# operators that promise the Rx grammar and serialised delivery whatever the source does
GUARD_OPS = ["mapi", "mapi_async", "filteri", "skip", "take", "take_last", "skip_last", "distinct", "zip_seq",
             "merge", "combine_latest", "with_latest_from", "take_until", "concat", "flat_mapi", "flat_map",
             "flat_map_async", "merge_inner", "concat_map", "switch", "flat_map_latest_async", "debounce", "delay"]

fn_delays = st.sampled_from([0, 0, -1, -2, 0.25])
rz_st = st.sampled_from([0, 0, 0, 0, 2, 3, 6, 11])
count_st = st.one_of(*[st.integers(0, 9), st.integers(0, 3)] * 8, st.integers(10, 45))


@st.composite
def op_st(draw, names, raising=True, src_kw=None, tag="o"):
    name = draw(st.sampled_from(names))
    p = {}
    if name in FN_OPS or name in ACC_OPS or name in INNER_OPS:
        p["salt"] = draw(st.integers(0, 30))
        if name.endswith("_async"):
            p["d"] = draw(fn_delays)
    if name in FN_OPS or name in ACC_OPS:
        if raising:
            rz = draw(rz_st)
            if rz:
                p["rz"] = rz
        if draw(st.integers(0, 3)) == 0:
            p["const"] = 1
        if name in ("filter", "filter_async", "filteri", "starfilter") and draw(st.booleans()):
            p["ty"] = 1
    if name in ACC_OPS:
        p["init"] = draw(st.integers(0, 26))
        p["deep"] = draw(st.integers(0, 1))
    if name in ("skip", "take_last", "skip_last"):
        p["n"] = draw(count_st)
    if name == "take":
        p["n"] = draw(many(1, 8, 45))
    if name in ("getitem", "slice"):
        b = st.one_of(*[st.none(), st.integers(-6, 9)] * 8, st.integers(-40, 45))
        p["a"], p["b"] = draw(b), draw(b)
        p["c"] = draw(st.sampled_from([None, 1, 1, 2, 3]))
    if name == "zip_seq":
        p["k"] = draw(count_st)
    if name in ("delay", "debounce"):
        p["t"] = draw(st.sampled_from([0.25, 0.5, 1.25, 3.75]))
    if name == "retry":
        p["n"] = draw(st.integers(0, 3))
    if name in TWO_OPS:
        p["src"] = draw(source_st(**(src_kw or {"max_len": 5}), tag=tag))
    if name in INNER_OPS:
        n = draw(st.integers(1, 3))
        p["inners"] = [draw(source_st(**(src_kw or {"max_len": 4}), tag=f"{tag}{i}", medium=False)) for i in range(n)]
    if name == "merge_inner":
        p["mc"] = draw(st.integers(0, 3))
    return [name, p]


def run_pipeline(case, ctx=None, hook=None, horizon=float("inf")):
    """Subscribe one recording observer and run to quiescence."""
    ctx = ctx or Ctx()
    rec = Rec(delays=case.get("obs"))

    async def main(loop):
        s = build_pipeline(ctx, case["src"], case["ops"])
        await warm_up(s, case.get("warm", 0))
        ctx.calls.clear()
        await s.subscribe_async(rec)
        await settle()

    run_case(main, what=describe(case["src"], case["ops"]), horizon=horizon)
    return ctx, rec


async def warm_up(s, how):
    """An earlier subscription, which must not matter: 1 runs to its end, 2 is cut short."""
    if not how:
        return
    sub = await s.subscribe_async(Rec())
    await asyncio.sleep(500 if how == 1 else 1.5)
    await sub.dispose_async()
    await asyncio.sleep(500)  # also whatever was inside a user function at that time
    await settle()


def warm_st():
    return st.sampled_from([0, 0, 0, 0, 1, 2])


def expect_notes(rec, ctx, case, alt=None):
    """Compare with the model; alt: other acceptable (values, term) traces."""
    mctx = Ctx()
    mctx.booms = ctx.booms
    vs, term = model_pipeline(mctx, case["src"], case["ops"])
    want = trace_notes(vs, term)
    if same_notes(rec.notes, want):
        return vs, term, mctx
    raise Violation(f"{describe(case['src'], case['ops'])}: got {fmt_notes(rec.notes)}, expected {fmt_notes(want)}")


def obs_delays_st():
    return st.one_of(st.just([]), st.lists(st.sampled_from([0, 0, -1, -3, 0.25, 1.5]), min_size=1, max_size=4))


def describe(src, ops):
    return src["k"] + "|" + "|".join(o[0] for o in ops)
