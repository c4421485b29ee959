"""Which simulator decides which property, how many runs, and how evidence describes it."""
import importlib

CALL_RULE = ("one run = one seeded plan (filters, callers, operations, faults, hand-over schedule) executed under the "
             "byte-code scheduler; non-trivial: a caller was pre-empted inside library code, or a fault fired, or a "
             "history operation (copy, reload, replace parameter, reuse buffer, overwrite result) took place; distinct "
             "by hash of plan shape and executed hand-over trail")
NET_RULE = ("one run = one simulated world (plants, sensors, lossy network, estimator node with checkpoint disk) run to "
            "its end; non-trivial: at least one message was lost, delayed past its step, reordered, duplicated or "
            "corrupted, or the node crashed; distinct by hash of the sequence of applied predict/update events")
PIPE_RULE = ("one run = one record processed by a pipeline under a seeded crash/truncation/corruption plan; "
             "non-trivial: a crash fired inside a call, the record was split, cut or corrupted; distinct by hash of "
             "the plan's events and where crashes landed")
VCS_RULE = ("one run = one repository history with 2-6 imports of the package from deployments of it (checkout, worktree, "
            "clone, archive, built release, copy, frozen, zip), each with edits, an inherited environment and seeded "
            "faults of the version-control tool; non-trivial: a fault fired, the environment was changed, the tree was "
            "edited, or the deployment is not a checkout; distinct by hash of deployments, environment and tool calls")

# quick/thorough run counts; simulator module
PROPS = {
    "C01": dict(sim="netsim", quick=24000, thorough=600000, rule=NET_RULE),
    "C02": dict(sim="netsim", quick=24000, thorough=600000, rule=NET_RULE),
    "C03": dict(sim="pipesim", quick=24000, thorough=600000, rule=PIPE_RULE),
    "C04": dict(sim="callrun", quick=4000, thorough=80000, rule=CALL_RULE),
    "C05": dict(sim="pipesim", quick=24000, thorough=600000, rule=PIPE_RULE),
    "C06": dict(sim="callrun", quick=4000, thorough=80000, rule=CALL_RULE),
    "C07": dict(sim="callrun", quick=8000, thorough=120000, rule=CALL_RULE),
    "C08": dict(sim="callrun", quick=8000, thorough=100000, rule=CALL_RULE),
    "C09": dict(sim="callrun", quick=5000, thorough=100000, rule=CALL_RULE),
    "C10": dict(sim="callrun", quick=5000, thorough=100000, rule=CALL_RULE),
    "C11": dict(sim="callrun", quick=4000, thorough=80000, rule=CALL_RULE),
    "C12": dict(sim="netsim", quick=24000, thorough=600000, rule=NET_RULE),
    "C13": dict(sim="netsim", quick=10000, thorough=400000, rule=NET_RULE),
    "C14": dict(sim="vcssim", quick=2400, thorough=40000, rule=VCS_RULE),
    "C15": dict(sim="vcssim", quick=2400, thorough=50000, rule=VCS_RULE),
    "C16": dict(sim="callrun", quick=5000, thorough=60000, rule=CALL_RULE),
    "C21": dict(sim="leaksim", quick=3000, thorough=60000, rule=CALL_RULE),
}


def sim(prop):
    return importlib.import_module("dst." + PROPS[prop]["sim"])
