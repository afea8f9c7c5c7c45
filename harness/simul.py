"""Reference simulation of merging/switching in virtual time.

Scripts use non-negative gaps in virtual seconds here, or negative gaps
(loop turns) which take no virtual time.
"""
from __future__ import annotations

import heapq


def dur(g):
    return g if g > 0 else 0.0


def simulate_merge(outer, inners, mc):
    """outer: [(t, 'N', inner_no) | (t, 'E', tag) | (t, 'C', None)], absolute times.

    inners: scripts [[gap, kind, payload], ...] or {"raise": tag} for a failing
    subscribe.  Returns dict: emits [(t, inner_no, k, payload)], starts
    {inner_no: t}, end (t, 'C'|'E', {tags}) or None.
    """
    events, seq = [], 0

    def push(t, what):
        nonlocal seq
        seq += 1
        heapq.heappush(events, (t, seq, what))

    for t, k, p in outer:
        push(t, ("outer", k, p))
    active, queue, stopped = set(), [], False
    emits, starts, errors = [], {}, []
    end = None

    def start(i, t):
        starts[i] = t
        active.add(i)
        if isinstance(inners[i], dict):
            push(t, ("inner", i, "E", inners[i]["raise"], 0))
            return
        at, k = t, 0
        for g, kind, p in inners[i]:
            at += dur(g)
            push(at, ("inner", i, kind, p, k))
            k += 1
            if kind != "N":
                break

    while events:
        t, _, ev = heapq.heappop(events)
        if end is not None and t > end[0]:
            break
        if ev[0] == "outer":
            _, k, p = ev
            if k == "N":
                if mc == 0 or len(active) < mc:
                    start(p, t)
                else:
                    queue.append(p)
            elif k == "C":
                stopped = True
            else:
                errors.append((t, p))
        else:
            _, i, k, p, n = ev
            if k == "N":
                emits.append((t, i, n, p))
            elif k == "C":
                active.discard(i)
                if queue:
                    start(queue.pop(0), t)
            else:
                errors.append((t, p))
        if errors and (end is None or end[1] != "E"):
            end = (errors[0][0], "E", {errors[0][1]})
        elif errors:
            end[2].add(errors[-1][1])
        elif stopped and not active and not queue and end is None:
            end = (t, "C", set())
            break
    return {"emits": emits, "starts": starts, "end": end}


def simulate_switch(outer, inners):
    """Expected emissions of switch_latest; see simulate_merge for arguments.

    Returns dict: emits [(t, inner_no, k, payload, maybe)], `maybe` true when
    the emission coincides with a switch (either outcome is allowed);
    switches {inner_no: t}; end as above, plus 'tie' when errors coincide
    with other terminal-relevant events.
    """
    switch = [(t, p) for t, k, p in outer if k == "N"]
    last = [(t, k, p) for t, k, p in outer if k != "N"]
    stop = last[0] if last else None
    emits, ends = [], []
    done_at = {}
    for j, (t, i) in enumerate(switch):
        until = switch[j + 1][0] if j + 1 < len(switch) else float("inf")
        if isinstance(inners[i], dict):
            ends.append((t, "E", inners[i]["raise"], False))
            continue
        at = t
        for n, (g, k, p) in enumerate(inners[i]):
            at += dur(g)
            if at > until:
                break
            if k == "N":
                emits.append((at, i, n, p, at == until))
            elif k == "C":
                done_at[i] = (at, at == until)
                break
            else:
                ends.append((at, "E", p, at == until))
                break
    if stop is not None:
        if stop[1] == "E":
            ends.append((stop[0], "E", stop[2], False))
        elif not switch:
            ends.append((stop[0], "C", None, False))
        else:
            i = switch[-1][1]
            if i in done_at:
                ends.append((max(stop[0], done_at[i][0]), "C", None, False))
    return {"emits": emits, "ends": sorted(ends, key=lambda e: e[0]), "switch": switch}
