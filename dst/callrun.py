"""Adapter: callsim as a registered simulator."""
import hashlib

from . import callgen, callsim, marathon

REAL = ["kalmankit package (all modules), executed from /repo/src", "numpy", "CPython threads, parked and released one at a time"]
STUB = ["thread scheduling (seeded byte-code scheduler)", "threading/_thread locks", "time.* clock",
        "process spawning at import (no such program)", "callers and user model functions"]


MARATHON = {"C07": 0.006, "C08": 0.008, "C10": 0.008}


def gen(prop, r, tier):
    if r.random() < MARATHON.get(prop, 0):
        return marathon.gen(prop, r, tier)
    return callgen.gen(prop, r, tier)


def execute(prop, plan, mirror=None):
    if "marathon" in plan:
        o = marathon.execute(prop, plan)
    elif prop == "C16":
        o = callsim.execute_env(plan, mirror if plan.get("mirror", True) else None)
    else:
        o = callsim.execute(plan, callgen.ORACLES[prop])
    return summarise(prop, plan, o)


def summarise(prop, plan, o, extra=None):
    st = o["stats"]
    inlib = o["switches"] > 0
    o["nontrivial"] = bool(inlib or any(k.startswith(("fault:", "hist:")) for k in st) or prop == "C16")
    shape = repr([[(op["op"], op.get("i"), [f["kind"] for f in op.get("faults") or []]) for op in ops]
                  for ops in plan["threads"]] + [(i["cls"], i["spec"]["n"], i["spec"]["m"], i["spec"]["N"],
                                                  i["spec"]["form"]) for i in plan["instances"]])
    o["sig"] = hashlib.blake2b((shape + o["sig"]).encode(), digest_size=8).hexdigest()
    o["measures"] = {"handovers": o["switches"], "scheduler_steps": o["steps"], **(extra or {})}
    return o


def mirror_execute(prop, plan):
    return callsim.in_environment(plan, plan["env"][1])


def shrink(prop, plan):
    return marathon.shrink(plan) if "marathon" in plan else callgen.shrink(plan)


def describe(prop, plan):
    return marathon.describe(plan) if "marathon" in plan else callgen.describe(plan)
