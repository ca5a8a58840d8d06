"""
Linearizability of scheduler histories (Wing & Gong search with memoisation).

An operation is a dict: inv, res (global event numbers; res None = pending at
the end), t0, t1 (clock at invocation and response), kind, and arguments.
The sequential specification is a queue ordered by (time, priority, order of
scheduling) plus a clock that never goes back.
"""
from .kernel import HarnessError

INF = float("inf")


class Undecided(Exception):
    pass


def apply(state, clock, op):
    """
    state: tuple of (time, prio, order, token), sorted; clock: the least clock
    value the history so far is consistent with.
    Yields (state, clock) after op, nothing if op is not possible here.
    """
    k = op["kind"]
    t = max(clock, op["t0"])
    t1 = op["t1"]
    if k == "sched":
        # 'order' must grow with each schedule: use the number of earlier ones
        n = op["_n"]
        e = (op["time"], op["prio"], n, op["tok"])
        return tuple(sorted(state + (e,))), t
    if k == "cancel":
        for i, e in enumerate(state):
            if e[3] == op["tok"]:
                if op["ok"]:
                    return state[:i] + state[i + 1:], t
                return None
        return None if op["ok"] else (state, t)
    if k == "next":
        if op["result"] is None:          # StopIteration
            return (state, t) if not state else None
        if not state or state[0][3] != op["result"]:
            return None
        t = max(t, state[0][0])
        if t > t1:
            return None
        return state[1:], t
    if k == "nb":
        if op["result"] is None:
            if state and state[0][0] <= t:
                return None
            return state, t
        if not state or state[0][3] != op["result"]:
            return None
        t = max(t, state[0][0])
        if t > t1:
            return None
        return state[1:], t
    if k == "bool":
        return (state, t) if bool(state) == op["result"] else None
    if k == "queue":
        return (state, t) if [e[3] for e in state] == op["result"] else None
    raise HarnessError(k)


def linearizable(ops, limit=400_000):
    """True/False; Undecided if the search is too long.  Pending operations may take effect or not."""
    ops = sorted(ops, key=lambda o: o["inv"])
    n = len(ops)
    full = (1 << n) - 1
    need = 0
    for i, o in enumerate(ops):
        if o["res"] is not None:
            need |= 1 << i
    seen = set()
    stack = [(0, (), -INF, 0)]
    steps = 0
    while stack:
        mask, state, clock, nsched = stack.pop()
        if mask & need == need:
            return True
        # earliest response among the operations not yet linearized
        lim = INF
        for i, o in enumerate(ops):
            if not mask & (1 << i) and o["res"] is not None and o["res"] < lim:
                lim = o["res"]
        for i, o in enumerate(ops):
            if mask & (1 << i):
                continue
            if o["inv"] > lim:
                break
            o["_n"] = nsched
            r = apply(state, clock, o)
            if r is None:
                continue
            steps += 1
            if steps > limit:
                raise Undecided()
            m2 = mask | (1 << i)
            ns = nsched + (o["kind"] == "sched")
            # the order numbers matter only relative to each other
            key = (m2, tuple(e[3] for e in r[0]), r[1])
            if key in seen:
                continue
            seen.add(key)
            stack.append((m2, r[0], r[1], ns))
    return False
