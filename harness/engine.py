"""Runs one check: sharded Hypothesis search (plus optional enumeration) against an oracle."""

from __future__ import annotations

import argparse
import faulthandler
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

_real_time = time.monotonic  # before clocks are patched

from . import boot  # noqa: E402,F401
from .kit import BOOMS, FOUND, Boom, Violation, listed_findings  # noqa: E402

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings, strategies as st  # noqa: E402

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NSHARDS = 8


class StopSearch(KeyboardInterrupt):
    """Ends a Hypothesis run from inside (used to bound shrinking)."""


def canon(case) -> str:
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def execute(mod, case):
    Boom.kind = case.pop("error_kind", 0)
    return mod.execute(case)


@st.composite
def with_kind(draw, cases):
    """A case and the kind of exception that its injected errors are."""
    case = draw(cases)
    kind = draw(KINDS)
    if kind:
        case["error_kind"] = kind
    return case


KINDS = st.sampled_from([0] * len(BOOMS) + list(range(len(BOOMS))))


class Shard:
    def __init__(self, mod, index, seed, count, budget, shrink_budget):
        self.mod = mod
        self.index = index
        self.seed = seed
        self.count = count
        self.t0 = _real_time()
        self.budget = budget
        self.shrink_budget = shrink_budget
        self.evals = 0
        self.skipped = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.fail = None  # (size, case, message)
        self.fail_at = None
        self.nfail = 0

    def one(self, case):
        """Execute a case; record coverage; raise Violation if it fails."""
        now = _real_time()
        if self.fail_at is not None and now - self.fail_at > self.shrink_budget:
            raise StopSearch()
        if self.fail_at is None and now - self.t0 > self.budget:
            self.skipped += 1
            return
        text = canon(case)
        try:
            nontrivial, labels = execute(self.mod, json.loads(text))
        except Violation as ex:
            self.nfail += 1
            if self.fail_at is None:
                self.fail_at = _real_time()
            if self.fail is None or len(text) < self.fail[0]:
                self.fail = (len(text), json.loads(text), str(ex))
            raise
        self.evals += 1
        for label in labels:
            self.labels[label] = self.labels.get(label, 0) + 1
        if nontrivial:
            h = hashlib.blake2b(text.encode(), digest_size=8).digest()
            if h not in self.hashes:
                self.hashes.add(h)
                n = len(self.hashes)
                if n & (n - 1) == 0 and len(self.samples) < 24:
                    self.samples.append(json.loads(text))

    def enumerate(self):
        enum = getattr(self.mod, "enumerate_cases", None)
        if enum is None:
            return 0
        n = 0
        self.t0 = _real_time()  # a time budget of its own
        for i, case in enumerate(enum(os.environ.get("VERIF_TIER", "quick"))):
            if i % NSHARDS != self.index:
                continue
            n += 1
            self.one(case)
        return n

    def search(self):
        @hypothesis.seed(self.seed)
        @settings(
            max_examples=max(1, self.count),
            database=None,
            deadline=None,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            print_blob=False,
            report_multiple_bugs=False,
        )
        @given(with_kind(self.mod.cases()))
        def prop(case):
            self.one(case)

        prop()


def run_shard(modname, index, seed, count, budget, shrink_budget, conn):
    faulthandler.enable()
    out = {"index": index, "error": None}
    shard = None
    try:
        mod = importlib.import_module(modname)
        shard = Shard(mod, index, seed, count, budget, shrink_budget)
        devnull = open(os.devnull, "w")
        sys.stderr = devnull
        try:
            shard.search()
            out["enumerated"] = shard.enumerate()
        except (Violation, StopSearch):
            pass
        except BaseException as ex:
            # Hypothesis may wrap (Flaky, ExceptionGroup): a recorded failure is still a failure.
            if shard.fail is None:
                raise
            out["note"] = f"{type(ex).__name__}"
    except BaseException:
        out["error"] = traceback.format_exc()
    if shard is not None:
        out.update(evals=shard.evals, skipped=shard.skipped, hashes=shard.hashes, labels=shard.labels,
                   samples=shard.samples, fail=shard.fail, nfail=shard.nfail, found=set(FOUND))
    conn.send(out)
    conn.close()
    os._exit(0)


def write_replay(prop, case, message):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(canon(case).encode(), digest_size=6).hexdigest()
    path = os.path.join(d, f"{prop}-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "case": case, "message": message}, f, indent=1, sort_keys=True)
        f.write("\n")
    return path


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--case", help="run one case given as JSON text")
    ap.add_argument("--count", type=int)
    ap.add_argument("--profile", action="store_true")
    args = ap.parse_args(argv)
    prop = args.property
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    modname = f"harness.checks.{prop.lower()}"
    mod = importlib.import_module(modname)

    if args.replay or args.case:
        case = json.loads(args.case) if args.case else json.load(open(args.replay))["case"]
        try:
            nt, labels = execute(mod, case)
        except Violation as ex:
            print(f"violation: {ex}")
            print(f"VIOLATION property={prop} replay={args.replay or '-'}")
            return 1
        print(f"held (nontrivial={nt}, labels={labels})")
        return 0

    t0 = _real_time()
    count = args.count or mod.COUNTS[tier]
    budget = {"quick": 150.0, "thorough": 780.0}[tier]
    shrink_budget = {"quick": 25.0, "thorough": 60.0}[tier]
    per = (count + NSHARDS - 1) // NSHARDS

    if args.profile:
        import cProfile

        shard = Shard(mod, 0, seed, per, budget, shrink_budget)
        cProfile.runctx("shard.search()", globals(), {"shard": shard}, sort="cumtime")
        return 0

    ctx = mp.get_context("fork")
    procs = []
    for i in range(NSHARDS):
        r, w = ctx.Pipe(duplex=False)
        p = ctx.Process(target=run_shard, args=(modname, i, seed * 1000 + i, per, budget, shrink_budget, w))
        p.start()
        w.close()
        procs.append((p, r))
    results, errors = [], []
    for i, (p, r) in enumerate(procs):
        try:
            res = r.recv()
        except EOFError:
            res = {"index": i, "error": f"shard {i} died", "evals": 0}
        results.append(res)
        p.join()
        if res.get("error"):
            errors.append(res["error"])

    fails = sorted((r["fail"] for r in results if r.get("fail")), key=lambda f: f[0])
    hashes, labels, samples = set(), {}, []
    for r in results:
        hashes |= r.get("hashes") or set()
        for k, v in (r.get("labels") or {}).items():
            labels[k] = labels.get(k, 0) + v
        samples.extend((r.get("samples") or [])[-3:])
    evals = sum(r.get("evals", 0) for r in results)
    samples.sort(key=lambda c: len(canon(c)))
    samples = [c for c in samples if len(canon(c)) < 4000]
    step = max(1, len(samples) // 6)
    wall = _real_time() - t0
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals + sum(r.get("nfail", 0) for r in results),
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": samples[::step][:6] or ["(no non-trivial case before the first failure)"],
            "enumerated_cases": sum(r.get("enumerated", 0) for r in results),
            "labels": dict(sorted(labels.items())),
            "skipped_over_time_budget": sum(r.get("skipped", 0) for r in results),
            "shards": NSHARDS,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "the harness's own deterministic virtual-time event loop stands in for the default asyncio loop; "
            "wall clocks agree with it",
        ],
        "wall_s": round(wall, 3),
        "violations": len(fails),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    found = set().union(*(r.get("found") or set() for r in results))
    for (p, key), text in listed_findings().items():
        if (p, key) in found:
            print(f"KNOWN-FINDING: property={p} {text}")
    if fails:
        _, case, message = fails[0]
        path = write_replay(prop, case, message)
        print(f"violation: {message}")
        print(f"case: {canon(case)[:2000]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("harness error:\n" + errors[0], file=sys.stderr)
        return 2
    print(f"{prop}: held on {evals} cases ({len(hashes)} distinct non-trivial) in {wall:.1f}s, tier={tier} seed={seed}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
