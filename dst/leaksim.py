"""leaksim: what finished calls leave behind (C21).

The same scheduler, callers, faults and histories as callsim, but the simulated callers keep nothing: when the
run is over, whatever still refers to a call's data, results or error is found by weak references.
"""
import gc
import sys
import weakref

import numpy as np

from . import callgen, callrun, callsim, prng

REAL, STUB = callrun.REAL, callrun.STUB


def gen(prop, r, tier):
    plan = callgen.gen(prop, r, tier)
    if r.random() < 0.3:
        plan["rounds"] = r.randint(3, 8)
    return plan


class Retain(callsim.Run):
    def __init__(self, plan, oracles):
        super().__init__(plan, oracles)
        self.refs = []           # (weak reference, what)
        self.seen = 0

    def track(self, a, what):
        pass

    def verify(self, where, op, e, res):
        pass

    def watch(self, a, what):
        while a is not None and a is not Ellipsis:
            if isinstance(a, (list, tuple)):
                for x in a:
                    self.watch(x, what)
                return
            try:
                self.refs.append((weakref.ref(a), what))
                self.seen += 1
            except TypeError:
                pass
            a = a.base if isinstance(a, np.ndarray) else None

    def noted(self, where, data, ins, res, exc, cb=False):
        for q, a in enumerate(ins):
            self.watch(a, "argument %d of %s" % (q, where))
        if isinstance(data, callsim.Record):
            self.watch(data.Z if isinstance(data.Z, list) else None, "measurements of %s" % where)
        self.watch(res, "a result of %s" % where)
        self.watch(exc, "the error of %s" % where)

    def hook_for(self, task_of):
        inner = super().hook_for(task_of)

        def hook(name, x, u):
            for a, q in ((x, "estimate"), (u, "control")):
                if isinstance(a, np.ndarray):
                    self.watch(a, "the %s a model function was given" % q)
            inner(name, x, u)
        return hook

    def alive(self, when):
        gc.collect()
        n = {}
        for ref, what in self.refs:
            o = ref()
            if o is not None and id(o) not in self.notmine:
                n[what] = n.get(what, 0) + 1
            o = None
        self.refs = []
        if n:
            self.bad("kept-alive", "%s: still referred to: %s" % (when, ", ".join(sorted(n)[:4])))

    def exempt(self, arrays):
        for a in arrays:
            while isinstance(a, np.ndarray):
                self.notmine[id(a)] = a
                a = a.base

    def finish(self, s):
        """After the run: callers have dropped everything; then the filters are dropped too."""
        for eff in self.effs.values():          # the models themselves stay
            self.exempt(eff.attrs.values())
        self.exempt(self.private.values())
        for inst in self.inst.values():         # so do parameters of copied and reloaded filters
            self.exempt([getattr(inst, q, None) for q in ("A", "B", "H", "Q", "R", "xk", "Pk")])
        inst = None
        for t in s.tasks:
            t.raised = t.exc = None
            t.triggers = []
        self.cbstate, self.results, self.kept, self.bufs, self.datas, self.gsnaps = {}, [], [], {}, {}, []
        self.gain_seq, self.extra_gains = {}, {}
        self.shared = {}
        # gains logged may not hold on to anything but gains
        self.alive("after %d calls" % sum(self.stats[k] for k in self.stats if k.startswith("op:")))
        if self.plan.get("rounds") and not self.viol:
            self.growth()
        for i, inst in self.inst.items():
            self.watch(inst, "filter %d" % i)
            logged = getattr(inst, "kalman_gains", None)
            for g in (logged[:3] if isinstance(logged, list) else ()):
                self.watch(g, "a logged gain of filter %d" % i)
        inst = logged = g = None
        for fl in self.dropped:
            self.refs.append(fl)
        self.inst, self.shared = {}, {}
        self.alive("after the filters were dropped")

    def one(self, task, tid, j, op):
        if op["op"] in ("drop", "new", "copy", "pickle") and op.get("i") in self.inst:
            try:
                self.dropped.append((weakref.ref(self.inst[op["i"]]), "replaced filter %d" % op["i"]))
            except TypeError:
                pass
        super().one(task, tid, j, op)

    # ---- steady growth
    def growth(self):
        """The same calls over and over: memory in use must not grow with their number."""
        ops = []
        for t in self.plan["threads"]:
            for op in t:
                if op["op"] in callsim.CALLS and op["i"] in self.inst and id(op) in self.opkey:
                    ops.append(op)
        ops = ops[:6]
        if not ops:
            return
        calls = [(op, self.inst[op["i"]], callsim.op_data(self.effs[self.opkey[id(op)][0]], op)) for op in ops]
        for eff in self.effs.values():
            for cb in eff.cbs:
                cb.hook = None
        used = []
        n, r = self.plan["rounds"] * len(ops), 0
        while r < 5 or r < 40 and min(b - a for a, b in zip(used[-4:], used[-3:])) >= max(3, n):
            r += 1
            for _ in range(self.plan["rounds"]):
                for op, inst, data in calls:
                    try:
                        callsim.do_call(inst, op, data)
                    except Exception:
                        pass
            for inst in self.inst.values():
                g = inst.kalman_gains
                if isinstance(g, list) and g is inst.kalman_gains:
                    del g[:]
                else:
                    return
            inst = g = None
            self.refs = []
            gc.collect()
            used.append(sys.getallocatedblocks())
        self.stats["op:growth-rounds"] += r
        if r == 40:          # free lists fill up in the first rounds; a leak never stops
            self.bad("memory-grows", "every round of %d calls leaves %s more blocks of memory in use"
                     % (n, used[-1] - used[-2]))

    def go(self):
        self.notmine, self.dropped = {}, []
        gc.collect()
        gc.freeze()
        try:
            return super().go()
        finally:
            gc.unfreeze()


def execute(prop, plan, mirror=None):
    r = Retain(plan, callgen.ORACLES[prop])
    o = r.go()
    o["stats"] = dict(r.stats)
    o["violations"] = r.viol
    return callrun.summarise(prop, plan, o, extra={"references_watched": r.seen})


def shrink(prop, plan):
    if plan.get("rounds"):
        yield {k: v for k, v in plan.items() if k != "rounds"}
        if plan["rounds"] > 3:
            yield {**plan, "rounds": 3}
    for p in callgen.shrink(plan):
        yield p


describe = callrun.describe
