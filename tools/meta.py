"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import importlib.util, json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "aioreactive/"
P = []


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": [A + f for f in files], "mechanism": [{"name": n, "where": A + w} for n, w in mech],
                          "hook_needed": None}})


prop("C01", "Every observer sees values, then at most one terminal, then nothing",
     "An observer subscribed to any pipeline is notified according to the Rx grammar: any number of values, then at most one "
     "completion or error, then nothing. Operators that combine, count, flatten, switch or time-shift uphold this even over "
     "sources that keep emitting or terminate twice, and the observer raising or disposing in a callback does not break it.",
     ["programs", "inputs", "schedules", "fault_sequences"],
     "all pipelines of the library's operators, all sources, observers and times of disposal or failure",
     "The tests run single operators over well-behaved sources; the grammar is about every composition, interleaving and "
     "misbehaving source.",
     ["observers.py", "combine.py", "transform.py", "filtering.py", "timeshift.py"],
     [("safe observer: serialise and stop after a terminal", "observers.py:safe_observer"),
      ("auto detach", "observers.py:auto_detach_observer")])
prop("C02", "Delivery is serialised and in order under concurrent producers",
     "Below an operator that serialises, the observer is never notified again before it finished handling the previous "
     "notification, however many independent tasks produce at the same time. Nothing is lost, duplicated or reordered with "
     "respect to each producer.",
     ["schedules", "inputs", "programs"],
     "all interleavings of 1-3 producers that do not wait for each other and all observer durations",
     "The tests send from one task and observers never pause, so overlap cannot occur in them.",
     ["observers.py", "combine.py", "transform.py", "filtering.py", "timeshift.py"],
     [("mailbox per subscription", "observers.py:safe_observer"), ("merge mailbox", "combine.py:merge_inner")])
prop("C03", "Element-wise operators agree with the list model",
     "Mapping, indexed and star mapping, filtering, choosing and their async forms produce for every source exactly the list "
     "obtained by applying the function to each value in order, followed by the source's own terminal notification. The user "
     "function is applied once per value with the right index, any value (also None, falsy values, exceptions) passes "
     "unchanged, and if the function raises, the observer gets the values before it and then that error.",
     ["inputs", "programs"],
     "all sources, values, compositions and user functions, sync, async or raising",
     "Tests use a few integers and one operator at a time.",
     ["transform.py", "filtering.py", "__init__.py"],
     [("transform", "transform.py:transform"), ("choose/filter", "filtering.py:choose_async"), ("zip_seq for indices", "combine.py:zip_seq")])
prop("C04", "Positional operators agree with Python sequence semantics",
     "Skip, take, take-last, skip-last, slicing and indexing deliver exactly the elements that the corresponding Python slice of the "
     "source's values would contain, for all counts and for positive, negative and missing bounds; removing consecutive "
     "duplicates removes exactly the values equal to their predecessor. Take-until relays the source exactly until the other "
     "observable first emits, and take completes as soon as it delivered its count.",
     ["inputs", "programs", "schedules"],
     "all source lengths (also 0 and less than the count), counts, slice bounds and values, and all relative timings of the two sources",
     "Tests sample a handful of counts on short integer sources.",
     ["filtering.py", "__init__.py", "types.py"],
     [("skip/take/…", "filtering.py:take"), ("slice", "filtering.py:slice"), ("distinct_until_changed", "filtering.py:distinct_until_changed"),
      ("take_until", "filtering.py:take_until")])
prop("C05", "Scan and reduce are the left fold of the source",
     "Scan delivers every intermediate state and reduce only the final state of folding the accumulator over the source's values "
     "from the initial state, sync or async. The accumulator is called exactly once per value, in order, never concurrently; if it "
     "raises, the error is delivered, no further values are accumulated and the source is released.",
     ["inputs", "programs"],
     "all sources, accumulators, initial states and failure positions",
     "Tests fold a few integers with addition.",
     ["transform.py"], [("_scan", "transform.py:_scan"), ("reduce = scan + take_last", "transform.py:reduce")])
prop("C06", "Merging delivers every inner notification exactly once, within its limit",
     "Merging observables (two, a list, or an observable of observables, also via flat-mapping) delivers each value of each inner "
     "sequence exactly once, at the time it is sent and in the order of its own sequence, and completes exactly when the outer and all "
     "inner sequences have completed. With a concurrency limit never more than that many inner sequences are subscribed, the others "
     "are subscribed in order as slots become free; the first error ends everything and releases all inner sequences.",
     ["inputs", "schedules", "fault_sequences", "configurations"],
     "all outer and inner schedules, limits, failing sources and failing subscriptions",
     "Tests merge two or three small sources; completion and limits depend on how terminations interleave.",
     ["combine.py", "transform.py"], [("merge_inner mailbox and model", "combine.py:merge_inner"), ("flat_map family", "transform.py:flat_map")])
prop("C07", "Concatenation is strictly sequential",
     "Concatenating observables delivers all of the first, then all of the second, and so on, and completes after the last. A "
     "sequence is subscribed only once its predecessor completed; an error ends the whole and later sequences are never subscribed.",
     ["inputs", "schedules", "fault_sequences"],
     "all lists of sequences with all schedules, empty, failing, never-ending or failing to subscribe",
     "Tests concatenate two short iterables.",
     ["combine.py", "transform.py"], [("concat_seq = merge_inner(1)", "combine.py:concat_seq"), ("concat_map", "transform.py:concat_map")])
prop("C08", "Switching follows only the latest inner observable",
     "After a new inner observable arrives only its values are delivered; the previous one is unsubscribed and nothing of it, "
     "not even its error or completion, is delivered any more. The result completes exactly when the outer and the latest inner have "
     "completed, and fails as soon as the outer or the latest inner fails.",
     ["inputs", "schedules", "fault_sequences"],
     "all outer and inner schedules, also inner sequences that ignore being unsubscribed or fail to subscribe",
     "There is no test with overlapping inner sequences; staleness depends on interleaving.",
     ["transform.py"], [("switch_latest mailbox with current id", "transform.py:switch_latest")])
prop("C09", "Combining operators pair the right values",
     "Combine-latest emits the pair of latest values on every emission once both sources have emitted; with-latest-from emits only on "
     "the first source's values, paired with the latest of the other; zipping with an iterable pairs the n-th value with the n-th item "
     "and stops with the shorter of the two. An error of either source is delivered at once.",
     ["inputs", "schedules"],
     "all interleavings of two sources' values and terminals, values of any kind including None",
     "Tests use one or two interleavings.",
     ["combine.py"], [("combine_latest", "combine.py:combine_latest"), ("with_latest_from", "combine.py:with_latest_from"), ("zip_seq", "combine.py:zip_seq")])
prop("C10", "Catch and retry continue after an error without losing or repeating values",
     "Catch delivers everything before the error exactly once and then exactly what the handler's observable delivers, handing the handler "
     "the original error; without an error it changes nothing. Retry resubscribes after each error up to the given number of times for "
     "every subscription, delivers the attempts one after the other and passes on the last error; disposing stops whichever source is current.",
     ["inputs", "fault_sequences", "schedules"],
     "all failing and non-failing sources, handlers (also failing ones), retry counts, repeated subscriptions and disposal times",
     "There are no tests for catch or retry.",
     ["transform.py"], [("catch", "transform.py:catch"), ("retry", "transform.py:retry")])
prop("C11", "An error reaches the observer once, as the same exception object",
     "An exception raised anywhere in a pipeline (a source, an iterable, a user function, a second or inner source, a subscription, "
     "the observer's own value handler) reaches the observer exactly once as that very exception object, through any operators in "
     "between, and is never swallowed, replaced or turned into a hang.",
     ["fault_sequences", "programs", "inputs"],
     "all places an error can be injected, in all pipelines and with all consumers (observer, async iteration, run)",
     "Tests inject an error in very few places and never through several operators.",
     ["observers.py", "create.py", "transform.py", "combine.py", "timeshift.py", "subscription.py"],
     [("safe observer catches handler errors", "observers.py:safe_observer"), ("source error paths", "create.py:of_async_iterable")])
prop("C12", "Silence after disposal",
     "Once disposing a subscription has returned, the observer is not notified any more, even of values that were already queued "
     "inside the pipeline, and every source is unsubscribed and every timer stopped. This holds for disposal at any moment, from "
     "anywhere, including from inside the observer's own callback, repeatedly or concurrently.",
     ["schedules", "programs", "histories"],
     "all pipelines and all moments of disposal (virtual times, loop turns, inside callbacks)",
     "Tests dispose at one or two fixed moments.",
     ["observers.py", "create.py", "timeshift.py", "combine.py", "transform.py"],
     [("disposed flag in front of the observer", "observers.py:auto_detach_observer"), ("cancellation of workers", "create.py:canceller")])
prop("C13", "Termination releases everything upstream",
     "When a sequence terminates for its observer, whatever the reason (completion, an error, a count reached, another observable "
     "firing, the observer failing), every upstream subscription it still holds is disposed at that moment and no timer or task goes on producing.",
     ["programs", "fault_sequences", "schedules"],
     "all pipelines over sources that would go on by themselves and all ways of terminating",
     "Tests only check what is delivered, not what is left running.",
     ["observers.py", "filtering.py", "combine.py", "transform.py"],
     [("auto detach disposes on termination", "observers.py:auto_detach_observer")])
prop("C14", "Subscriptions of one observable are independent",
     "Every subscription of a cold pipeline sees the same notifications at the same relative times as if it were the only one, "
     "whatever other subscriptions exist before, during or after it, and whether those are slow or get disposed. No operator shares mutable state between subscriptions.",
     ["histories", "programs", "schedules"],
     "all pipelines with 2-4 overlapping or consecutive subscriptions",
     "Tests subscribe each pipeline once.",
     ["filtering.py", "transform.py", "combine.py", "timeshift.py", "create.py"],
     [("state created inside subscribe", "filtering.py:skip")])
prop("C15", "A subject delivers to exactly its current subscribers",
     "A subject delivers each value to every observer subscribed at that moment, exactly once and in subscription order, and completion or "
     "error to all of them once; nothing after a terminal. Unsubscribing removes exactly that subscription, an "
     "observer that unsubscribes or subscribes during delivery affects no other observer, and a disposed subject refuses use.",
     ["histories", "inputs"],
     "all histories of subscribe, unsubscribe, send, throw, close and dispose, also from inside callbacks",
     "Tests follow a few fixed histories.",
     ["subject.py"], [("observer list", "subject.py:AsyncMultiSubject")])
prop("C16", "A single-observer subject holds producers and loses nothing",
     "Producers on a single-observer subject wait until an observer subscribes; then everything sent is delivered exactly once, in order "
     "per producer, at most one terminal and nothing after it. A cancelled producer affects no other, and disposal releases every waiting producer and refuses further use.",
     ["histories", "schedules", "fault_sequences"],
     "all interleavings of producers, cancellations, subscription and disposal",
     "Tests use one producer and no cancellation.",
     ["subject.py"], [("wait for observer", "subject.py:AsyncSingleSubject")])
prop("C17", "A producer that awaits is held until the observer has handled the value",
     "Through element-wise and accumulating operators, subjects and async iteration, awaiting a send returns only after the observer "
     "has completely handled that value, so a slow observer slows the producer down and nothing is buffered. Async iterables and intervals are not advanced earlier either.",
     ["programs", "schedules", "inputs"],
     "all chains of pass-through operators and all observer durations",
     "Tests never look at when a send returns.",
     ["transform.py", "filtering.py", "subject.py", "create.py", "observers.py"],
     [("await chain", "transform.py:transform"), ("push/pull futures", "observers.py:AsyncIteratorObserver")])
prop("C18", "Async iteration yields exactly the observable's notifications",
     "Iterating an observable asynchronously yields each value exactly once and in order, then stops or raises the very error of the source, "
     "and keeps saying so when asked again. Slow consumers, concurrent producers, timeouts that cancel a pending step and early exit lose nothing and leave no producer blocked.",
     ["schedules", "histories", "fault_sequences"],
     "all timings of producer and consumer, cancellations and early exits",
     "Tests iterate one well-behaved source at full speed.",
     ["observers.py", "observables.py"], [("push/pull handshake", "observers.py:AsyncIteratorObserver"), ("iterable wrapper", "observables.py:AsyncIterableObservable")])
prop("C19", "Delay shifts every value by exactly the given time and keeps order",
     "Delay delivers every value exactly the given time after it was sent (or as soon as the observer is free), in order and none lost, "
     "and completion after the last value. Disposal drops what is still in the delay line; an error ends the sequence.",
     ["inputs", "schedules"],
     "all source schedules, delays, chained delays and observer durations",
     "Tests use two or three values and one delay.",
     ["timeshift.py"], [("queue and worker", "timeshift.py:delay")])
prop("C20", "Debounce lets exactly the values through that are followed by quiet",
     "Debounce delivers a value exactly one quiet period after it was sent if and only if no other value was sent within that period; "
     "values come in order, none twice. Errors and completion of the source are passed on.",
     ["inputs", "schedules"],
     "all source schedules and periods",
     "Tests use three or four fixed timings.",
     ["timeshift.py"], [("current id", "timeshift.py:debounce")])
prop("C21", "Interval and timer tick exactly",
     "An interval emits 0, 1, 2, … the first after the initial delay and then one per period, to each subscriber independently, until it is "
     "disposed; a timer emits 0 once after its due time and completes. A slow observer receives every number, none skipped or repeated.",
     ["configurations", "schedules", "inputs"],
     "all delays, periods, subscribers, observer durations and disposal times",
     "Only indirect tests exist.",
     ["create.py"], [("interval", "create.py:interval"), ("timer", "create.py:timer")])
prop("C22", "Running an observable yields its last value, its error or a timeout",
     "Running an observable returns its last value when it completes, raises the very error if it fails and a timeout if it is still going "
     "after the given time, and in each case, also when cancelled, leaves the source unsubscribed. The awaitable observer resolves exactly once and forwards each notification exactly once.",
     ["inputs", "schedules", "histories"],
     "all sources, timeouts and cancellation times, and all call histories of the awaitable observer",
     "Tests run a few finite sources without timeouts or cancellation.",
     ["subscription.py", "observers.py"], [("run", "subscription.py:run"), ("future + observer", "observers.py:AsyncAwaitableObserver")])
prop("C23", "Creation functions produce exactly what they are given",
     "Observables made from iterables, async iterables, awaitables, single values, errors, factories or subscribe functions deliver to every "
     "subscriber exactly the given values in order and then exactly one completion, or the error raised by what they were made from. Nothing is evaluated before "
     "subscription, and all forms of subscribing (observer, any subset of callbacks) are equivalent.",
     ["inputs", "histories"],
     "all kinds of iterables and values, failure positions and subscription forms",
     "Tests sample small integer lists.",
     ["create.py", "subscription.py", "observables.py", "__init__.py"],
     [("of_seq", "create.py:of_seq"), ("of_async_iterable", "create.py:of_async_iterable"), ("of_async", "create.py:of_async"), ("defer", "create.py:defer")])
prop("C24", "Chained methods and piped functions are the same operators",
     "Building a pipeline by chaining methods gives the same notifications at the same times as piping the functions of the same name with the same "
     "arguments. Chaining never changes the observable it is called on.",
     ["programs", "inputs"],
     "all pipelines of 1-4 operators expressible both ways, all arguments",
     "Tests chain only a few operators.",
     ["__init__.py"], [("AsyncRx methods", "__init__.py:AsyncRx")])
prop("C25", "The virtual-time event loop is a faithful event loop",
     "On the virtual-time loop every scheduled callback and sleeping task runs exactly once, at its due time and in order of due times, cancelled ones "
     "never, and immediate callbacks in order without time passing. Time starts at zero, never goes back and only advances when nothing is left to do at the present time.",
     ["histories", "schedules"],
     "all trees of immediate, relative and absolute callbacks, tasks and cancellations, any number of timers, repeated runs",
     "Tests schedule one or two timers.",
     ["testing/virtual_events.py"], [("_run_once", "testing/virtual_events.py:VirtualTimeEventLoop")])
prop("C26", "Test utilities record and schedule exactly",
     "The recording observer records each notification it gets exactly once with the loop's time, and the scheduling subjects deliver each value, "
     "error or completion exactly once at the requested absolute or relative time. Notifications compare equal exactly when kind and content are equal and dispatch to exactly their own callback.",
     ["histories", "inputs", "schedules"],
     "all schedules of sends, errors and closes on one or several observers, all pairs of notifications",
     "Tests use these helpers but never check them over schedules.",
     ["testing/observer.py", "testing/subject.py", "testing/utils.py", "notification.py"],
     [("AsyncTestObserver", "testing/observer.py:AsyncTestObserver"), ("scheduling methods", "testing/subject.py:AsyncSubjectBase"),
      ("Notification", "notification.py:Notification")])
prop("C27", "Bridges to ReactiveX and to async iterables preserve the sequence",
     "A ReactiveX subscriber of a bridged observable sees exactly the same notifications, an error when subscribing fails, and nothing after it disposed, upon which "
     "the source is unsubscribed even if subscribing was still under way. Converting to an async iterable and back gives the same sequence.",
     ["programs", "schedules", "inputs"],
     "all sources, pipelines and moments of disposal",
     "There are no tests of the bridges.",
     ["leave.py", "iterable/to_async_observable.py", "observables.py"],
     [("to_observable", "leave.py:to_observable"), ("to_async_iterable", "leave.py:to_async_iterable")])

TECH = {
    "C04": "Hypothesis property-based testing against Python slicing, plus bounded exhaustive slices",
    "C15": "model-based (stateful) random histories against a list model, shrinking",
    "C16": "model-based random histories with injected cancellation on a virtual-time loop",
    "C25": "random callback trees against a due-time model",
    "C24": "differential property-based testing (chained vs piped)",
    "C14": "metamorphic property-based testing (shared vs solo subscription) on a virtual-time loop",
    "C11": "property-based fault injection with an identity oracle, shrinking",
    "C12": "property-based schedule search with an invariant over the history",
    "C13": "property-based schedule search with an invariant over the history",
}

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    for p in P:
        checks.append({
            "property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": TECH.get(p["id"], "Hypothesis property-based testing against a reference model on a virtual-time loop"),
            "level": "exploration",
            "level_note": "Searches generated cases (seeded by VERIF_SEED, 8 shards) with an explicit oracle and shrinks failures to a replay "
                          "file; no proof of absence. Trusts CPython's asyncio primitives, the harness's deterministic event loop and the oracle."})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c 'import harness.engine'", "checks": checks, "not_applicable": [],
                   "notes": "No hooks in /repo. All checks run the code from /repo's working tree in-process; nothing is built. "
                            "Known findings and fixed defects: KNOWN_FINDINGS.txt."}, f, indent=1, ensure_ascii=False)
        f.write("\n")
