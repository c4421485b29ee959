"""marathon: one filter that lives for a very long time (variant of callsim for C07, C08, C10).

A plan is one filter, a number of calls, and a short list of operations that are made again and again (single
predictions and updates, short records, failing ones, replaced parameters).  After every doubling and at seeded
instants the filter must still give what a new one gives, and its log must hold exactly the gains of the updates.
"""
import hashlib
from collections import Counter

import numpy as np

from . import callgen, callsim, cmp, lib, models, sched


def gen(prop, r, tier):
    cls = r.choice(["KF", "KF", "EKF"])
    s = callgen.spec_for(r, prop, cls, True, tier, 3)
    s["n"], s["m"], s["l"] = min(s["n"], 3), min(s["m"], 3), min(s["l"], 2)
    ops = []
    for _ in range(r.randint(1, 4)):
        op = callgen.call(r, "C08", 0, s)
        op.pop("same", None)
        if op["op"] in ("filter", "smooth"):
            op["bad"] = r.randrange(s["N"]) if prop == "C07" and r.random() < 0.5 else None
            op = {k: v for k, v in op.items() if v is not None}
        elif op["op"] == "update" and r.random() < (0.5 if prop == "C07" else 0.1):
            op["sing"] = True
        ops.append(op)
    n = r.choice([300, 1100, 5000, 12000] + ([30000, 70000] if r.random() < 0.3 else []))
    if tier == "thorough" and r.random() < 0.1:
        n = 250000
    if r.random() < 0.5 and not any(o["op"] == "update" and not o.get("sing") for o in ops):
        ops.append({"op": "update", "i": 0, "d": 0, "k": 0})
    looks = sorted({r.randrange(n) for _ in range(8)})
    return {"marathon": n, "spec": s, "cls": cls, "ops": ops, "looks": looks, "threads": [], "instances": [],
            "retune": r.choice([0, 0, 1]) if prop == "C10" else 0, "seed": r.getrandbits(40)}


def execute(prop, plan):
    viol, stats = [], Counter()

    def bad(kind, detail):
        if len(viol) < 5:
            viol.append({"kind": kind, "detail": str(detail)[:500]})
    dig = []
    with sched.seams(), np.errstate(all="ignore"):
        eff = callsim.Eff(plan["cls"], plan["spec"])
        kk = lib.fresh()
        inst = callsim.make_instance(kk, eff)
        todo = []
        for op in plan["ops"]:
            e = callsim.expect(kk, plan["cls"], plan["spec"], (), op, "line", True, count=False)
            if e.solo_exc is not None and not e.may_fail:
                bad("call-failed", "%s alone on a new filter failed with %r" % (op["op"], e.solo_exc))
            gains = e.gains if e.gains and not e.may_fail and e.tol == cmp.TOL else e.solo_gains
            todo.append((op, e, callsim.op_data(eff, op), gains))
        looks, want, calls = set(plan["looks"]) | {2 ** i for i in range(20)}, [], 0
        while calls < plan["marathon"] and not viol:
            op, e, data, gains = todo[calls % len(todo)]
            look = calls in looks or calls + len(todo) >= plan["marathon"]
            exc = res = None
            try:
                res = callsim.do_call(inst, op, data)
            except Exception as ex:
                exc = ex
            n0 = len(want)
            want.extend(gains)
            calls += max(1, len(gains))
            if (exc is None) != (e.solo_exc is None):
                bad("call-failed" if exc is not None else "error-missing", "call %d (%s): %r; alone on a new filter: %r"
                    % (calls, op["op"], exc, e.solo_exc))
                break
            if exc is not None and type(exc) is not type(e.solo_exc):
                bad("error-replaced", "call %d raised %r instead of %r" % (calls, exc, e.solo_exc))
            log = inst.kalman_gains
            if len(log) != len(want):
                bad("gain-log", "after %d calls: %d entries for %d updates" % (calls, len(log), len(want)))
                break
            if any(callsim.same_gain(a, b) is False for a, b in zip(log[n0:], gains)):
                bad("gain-log", "call %d logged another gain" % calls)
            if not look:
                continue
            if log and gains and not callsim.same_gain(log[0], want[0]):
                bad("gain-log", "after %d calls the first entry has changed" % calls)
            if exc is None:
                p = cmp.pair(res)
                d = max(cmp.err(p[0], e.solo[0], e.sx), cmp.err(p[1], e.solo[1], e.sp))
                dig.append(cmp.digest(*p))
                if not d <= cmp.TIGHT:
                    bad("differs-from-solo", "call %d (%s) is %.3g away from the same call on a new filter" % (calls, op["op"], d))
                if e.x is not None:
                    d = max(cmp.err(p[0], e.x, e.sx), cmp.err(p[1], e.P, e.sp))
                    if not d <= e.tol:
                        bad("differs-from-reference", "call %d (%s) is %.3g away from the reference" % (calls, op["op"], d))
        if not viol:
            step = max(1, len(want) // 2000)
            for k in range(0, len(want), step):
                if not callsim.same_gain(inst.kalman_gains[k], want[k]):
                    bad("gain-log", "entry %d of %d is not the gain of its update" % (k, len(want)))
                    break
        if plan.get("retune") and not viol:
            v = {"names": ["Q", "R", "xk", "Pk"], "seed": plan["seed"]}
            new = callsim.Eff(plan["cls"], plan["spec"], (v,))
            for q in v["names"]:
                setattr(inst, q, new.attrs[q])
            op = {"op": "filter", "i": 0, "d": 1}
            e = callsim.expect(kk, plan["cls"], plan["spec"], (v,), op, "line", True, count=False)
            try:
                p = cmp.pair(callsim.do_call(inst, op, callsim.op_data(new, op)))
                d = max(cmp.err(p[0], e.solo[0], e.sx), cmp.err(p[1], e.solo[1], e.sp))
                if not d <= cmp.TIGHT:
                    bad("differs-from-solo", "parameters replaced after %d calls: %.3g away from a new filter" % (calls, d))
            except Exception as ex:
                if e.solo_exc is None:
                    bad("call-failed", "after %d calls: %r" % (calls, ex))
    stats["hist:marathon"] += 1
    stats["op:marathon-calls"] += calls
    sig = hashlib.blake2b(repr((plan["marathon"], plan["cls"], plan["ops"], plan["spec"])).encode(), digest_size=8).hexdigest()
    return {"violations": viol, "stats": dict(stats), "sig": sig, "switches": 0, "steps": calls,
            "digest": hashlib.blake2b("".join(dig).encode(), digest_size=8).hexdigest()}


def shrink(plan):
    for n in (1, 2, 5, 20, 100, 255, 256, 257, 1000, plan["marathon"] // 2, plan["marathon"] * 3 // 4, plan["marathon"] * 9 // 10,
              plan["marathon"] - 1):
        if 0 < n < plan["marathon"]:
            yield {**plan, "marathon": n}
    for o in callgen.chunks(plan["ops"]):
        if o:
            yield {**plan, "ops": o}
    if plan.get("retune"):
        yield {**plan, "retune": 0}
    for s in models.shrink_spec(plan["spec"]):
        yield {**plan, "spec": s}


def describe(plan):
    s = plan["spec"]
    return {"filter": "%s n=%d m=%d N=%d %s" % (plan["cls"], s["n"], s["m"], s["N"], s["form"]), "calls": plan["marathon"],
            "again and again": [o["op"] + ("[fails]" if o.get("sing") or o.get("bad") is not None else "") for o in plan["ops"]]}
