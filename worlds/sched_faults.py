"""
C04: schedulers whose regulator fails: the clock, the sleep or the wake raises,
before or after doing its work, as ordinary exceptions or as interrupts.
"""
from sim import kernel as K
from sim import linear, runner, seams
from sim.kernel import Violation, HarnessError
from worlds.sched_threads import ThreadWorld, C02, finish, gen_sched


class FaultWorld(ThreadWorld):
    fired = None

    def do(self, op):
        k = self.kernel
        me = k.cur.id
        self.pending.pop(me, None)
        before = len(self.history)
        exc = None
        try:
            super().do(op)
        except (K.Injected, K.InjectedBase) as e:
            exc = e
        f = self.pending.pop(me, None)
        rec = self.history[-1] if len(self.history) > before else None
        mine = [o for o in self.history[before:] if o["task"] == k.cur.name]
        if exc is None:
            if f is not None:
                raise Violation("failure-hidden", f"{op[0]}: the regulator's {f[0]} raised {f[1]!r} but the operation completed")
            return
        if f is None or f[1] is not exc:
            raise Violation("wrong-exception", f"{op[0]}: raised {exc!r}, injected {f and f[1]!r}")
        o = mine[-1]
        o["failed"] = f[0]
        k.note("failed", o["kind"], o.get("tok"), f[0])
        self.out.faults[f"{f[0]}_raises_in_{o['kind']}"] += 1


class C04(runner.Check):
    id = "C04"
    runs = {"quick": 36000, "thorough": 600000}
    lists = (("tasks",), ("tasks", "*"), ("faults",))
    rule = ("one case = 1-3 simulated threads with random operations over the library's regulators made to raise at chosen calls of clock, sleep and wake; "
            "afterwards one thread lists, schedules and drains; non-trivial = at least one fault fired; distinct by the order of operation starts, failures and results")
    real = ("big.scheduler (Scheduler, Event, ThreadSafeRegulator or SingleThreadedRegulator)", "big.heap", "threading.Event of the standard library")
    stubs = ("thread scheduling", "_thread locks", "time", "fault injection in a subclass of the regulator")
    assumptions = ("a schedule or cancel whose wake raised may or may not have taken effect",)
    required_probes = ("fault_in_relative_schedule", "fault_in_next")

    def gen(self, rng, index, tier):
        c = C02().gen(rng, index, tier)
        for ops in c["tasks"]:
            for op in ops:
                if op[0] == "adv":
                    op[0] = "sleep"
                if op[0] == "sched" and rng.random() < .5:
                    if op[3] == "abs":
                        op[4] += rng.choice([0, 1, 3])
                    elif rng.random() < .3:
                        op[4] += 2
        c["reg"] = rng.choice(["safe", "safe", "single"])
        if c["reg"] == "single" or rng.random() < .3:
            c["tasks"] = c["tasks"][:1] if rng.random() < .5 or len(c["tasks"]) < 2 else [c["tasks"][0] + c["tasks"][1]]
        n = rng.choice([1, 1, 2, 4])
        c["faults"] = [[rng.choice(["now", "now", "sleep", "sleep", "wake"]), rng.choice([0, 0, 1, 1, 2, 3, 5, 8]), rng.choice(["before", "after"]), rng.choice(["plain", "base", rng.choice(K.ORDINARY), rng.choice(K.ORDINARY), rng.choice(["keyboard", "exit", "interrupted", "timeout", "value"])])] for _ in range(n)]
        return c

    def run(self, case):
        out = runner.Outcome()
        case = dict(case)

        def make(w):
            mod = w.mod
            w.pending = {}
            k = w.kernel
            base = mod.ThreadSafeRegulator if case["reg"] == "safe" else mod.SingleThreadedRegulator
            count = {"now": 0, "sleep": 0, "wake": 0}
            plan = {(f[0], f[1]): (f[2], f[3]) for f in case["faults"]}

            def fault(kind):
                n = count[kind]
                count[kind] += 1
                if not w.armed:
                    return None
                f = plan.get((kind, n))
                if f is None:
                    return None
                e = K.injected(f[1], f"{kind}#{n}")
                return f[0], e

            def fire(kind, e):
                w.pending[k.cur.id] = (kind, e)
                if kind == "now" and w.in_op.get(k.cur.id, {}).get("kind") == "sched":
                    out.probes["fault_in_relative_schedule"] += 1
                if w.in_op.get(k.cur.id, {}).get("kind") == "next":
                    out.probes["fault_in_next"] += 1
                raise e

            class R(base):
                def now(self):
                    f = fault("now")
                    if f and f[0] == "before":
                        fire("now", f[1])
                    r = super().now()
                    if f:
                        fire("now", f[1])
                    return r

                def wake(self):
                    f = fault("wake")
                    if f and f[0] == "before":
                        fire("wake", f[1])
                    super().wake()
                    if f:
                        fire("wake", f[1])

                @property
                def sleep(self):
                    inner = super().sleep
                    def sleep(interval):
                        f = fault("sleep")
                        if f and f[0] == "before":
                            fire("sleep", f[1])
                        inner(interval if not f else interval / 2)
                        if f:
                            fire("sleep", f[1])
                    return sleep
            return R()

        w = FaultWorld(case, out, make)
        w.armed = True
        k = w.kernel
        tasks = case["tasks"]
        nsched = case["schedulers"]
        base_tok = 1000

        def epilogue():
            k.sleep(500.0)
            w.armed = False
            for sid in range(nsched):
                w.do(["queue", sid])
                w.sid_of[base_tok + sid] = sid
                w.do(["sched", sid, base_tok + sid, "rel", 2, 100])
                w.do(["nb", sid, 100])
                w.do(["next", sid])
                w.do(["next", sid])
                w.do(["bool", sid])

        k.spawn("z", epilogue)
        w.run()
        finish(w, out)
        out.nontrivial = bool(out.faults)
        if not out.violation:
            try:
                lock = getattr(w.reg, "lock", None)
                if isinstance(lock, seams.SimLock) and lock.locked():
                    raise Violation("lock-left-held", "the lock is still held after every operation returned")
                self.check(w, out)
            except Violation as v:
                out.violation = (v.kind, v.detail)
        return out

    def check(self, w, out):
        by_handle = {id(h): t for t, h in w.handles.items()}
        for sid in range(len(w.scheds)):
            ops = []
            for o in w.history:
                if o["sid"] != sid:
                    continue
                o = dict(o)
                f = o.get("failed")
                if f:
                    if f == "wake" and o["kind"] in ("sched", "cancel"):
                        o["res"] = None          # may have taken effect
                        if o["kind"] == "cancel":
                            o["ok"] = True
                        else:
                            o["time"] = o["rel"] if o["absolute"] else o["t0"] + o["rel"]
                        ops.append(o)
                    continue                     # any other failed operation has no effect
                if o["kind"] == "queue":
                    # events whose schedule failed in wake have no handle: identify by token
                    r = []
                    for h in o["raw"]:
                        t = by_handle.get(id(h))
                        r.append(t if t is not None else w.token(h.event))
                    o["result"] = r
                ops.append(o)
            seen = {}
            for o in ops:
                if o["kind"] in ("next", "nb") and o["result"] is not None or o["kind"] == "cancel" and o["res"] is not None and o["ok"]:
                    t = o["result"] if o["kind"] != "cancel" else o["tok"]
                    if t in seen:
                        raise Violation("delivered-twice", f"event {t}: {seen[t]} and {o['kind']}")
                    seen[t] = o["kind"]
            # a pending operation has no response clock
            for o in ops:
                if o["res"] is None:
                    o["t1"] = float("inf")
            try:
                ok = linear.linearizable(ops)
            except linear.Undecided:
                out.probes["linearizability_undecided"] += 1
                continue
            if not ok:
                brief = [(o["task"], o["inv"], o["res"], o["kind"], o.get("tok"), o.get("time"), o.get("prio"), o.get("result"), o.get("ok"), o.get("failed")) for o in ops]
                raise Violation("inconsistent-after-failure", f"scheduler {sid}: {brief}")
