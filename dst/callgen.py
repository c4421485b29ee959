"""Plan generators and shrinking for callsim, one profile per property."""
import copy

from . import models, prng

ANY_INSTANT = ["KeyboardInterrupt", "MemoryError", "SensorError", "SystemExit"]
IN_FUNCTION = ["SensorError", "ValueError", "LinAlgError", "FloatingPointError", "KeyboardInterrupt", "MemoryError",
               "TypeError", "IndexError", "TimeoutError", "OSError", "ZeroDivisionError", "RuntimeError", "KeyError",
               "AttributeError", "AssertionError", "NotImplementedError", "CancelledError", "RecursionError", "UserWarning"]

ORACLES = {
    "C04": {"ref", "solo"},
    "C06": {"ref", "solo"},
    "C07": {"ref", "solo", "error", "public", "gains"},
    "C08": {"gains"},
    "C09": {"inputs", "own", "settings", "solo"},
    "C10": {"ref", "gains"},
    "C11": {"ref", "solo"},
    "C16": {"ref", "solo"},
    "C21": {"retain"},
}

# weights of operations per property: filter, smooth, predict, update
MIX = {
    "C04": (1, 5, 0.3, 0.3),
    "C06": (3, 3, 1.5, 1.5),
    "C07": (3, 3, 1, 1),
    "C08": (3, 2, 0.5, 3),
    "C09": (3, 3, 1.5, 1.5),
    "C10": (3, 2, 1, 1),
    "C11": (3, 2, 1, 1),
    "C16": (3, 3, 1, 1),
    "C21": (3, 2, 1, 1),
}
# step-call details (d, k) are drawn from small ranges so that callers often use equal data


def schedule(r, total):
    """Hand-over decisions: quanta of one characteristic length per run, mixed in some runs."""
    style = r.choice(["tight", "mid", "mid", "coarse", "mixed", "pct"])
    out, used = [], 0
    mean = {"tight": 3, "mid": 20, "coarse": 120}.get(style, 0)
    if style == "pct":       # few hand-overs at random places
        for _ in range(r.randint(1, 5)):
            out.append([1 + int(total * r.random() / 2), r.randrange(12)])
        return out
    while used < total and len(out) < 700:
        m = mean or r.choice([1, 3, 20, 100, 400])
        q = prng.geometric(r, m)
        out.append([q, r.randrange(12)])
        used += q
    return out


def spec_for(r, prop, cls, smooth, tier, Nmax):
    s = models.random_spec(r, Nmax=Nmax, nmax=4, mmax=3, smooth=True, tier=tier)
    if cls == "EKF":
        s["ekf"] = r.choice(["linear", "mild", "mild"])
        if s["N"] > 8:          # long nonlinear records amplify rounding
            s["ekf"] = "linear"
        if s["ctl"] == "Bnone":
            s["ctl"] = "full"
        if s["akind"] == "unstable":
            s["akind"] = "stable"
    return s


def call(r, prop, i, spec):
    w = MIX[prop]
    name = r.choices(["filter", "smooth", "predict", "update"], w)[0]
    op = {"op": name, "i": i, "d": r.choice([0, 0, 1, 2, r.getrandbits(16)])}
    if name in ("filter", "smooth"):
        if r.random() < 0.4:
            op["N"] = r.randint(1, spec["N"])
        if spec["ctl"] in ("none", "Unone") and r.random() < 0.5:
            op["omitU"] = True
    else:
        op["k"] = r.randrange(spec["N"])
        if name == "predict" and r.random() < 0.3:
            op["noctl"] = r.choice(["nan", "none"])
        if r.random() < 0.15:
            op["neutral"] = True
        if r.random() < 0.15:
            op["positional"] = True
        if name == "update" and r.random() < 0.2:
            op["sensor"] = r.randint(1, 4)
    if prop in ("C06", "C08", "C09", "C10") and name != "predict" and r.random() < 0.06 and not ("ekf" in spec and spec["ekf"] != "linear"):
        op["lost"] = r.randrange(spec["N"])
    if r.random() < 0.4:
        op["same"] = True
    return op


def gen(prop, r, tier):
    deep = tier == "thorough"
    Nmax = r.choice([2, 3, 4, 6] + ([10, 16] if deep else []))
    longer = r.random() < 0.05
    if longer:
        Nmax = r.choice([10, 16])
    if r.random() < 0.006 and prop not in ("C16", "C21"):
        return gen_long(prop, r, tier)
    nthreads = {"C04": [1, 1, 2, 3], "C06": [2, 2, 2, 3, 4], "C07": [1, 1, 2], "C08": [1, 2, 2, 3],
                "C09": [1, 1, 2, 3], "C10": [1, 1, 2, 3], "C11": [2, 2, 3, 4], "C16": [1, 1, 2], "C21": [1, 1, 2, 3]}[prop]
    T = r.choice(nthreads)
    if prop in ("C06", "C08", "C11") and r.random() < 0.03:
        T = r.choice([6, 9, 17])
    ninst = {"C10": r.randint(2, 4), "C16": r.randint(1, 3), "C21": r.randint(1, 2), "C08": r.choice([1, 1, 2]),
             "C09": r.choice([1, 1, 2])}.get(prop, r.choice([1, 1, 1, 2]))
    insts = []
    similar = r.random() < 0.5
    base = None
    for i in range(ninst):
        cls = r.choice(["KF", "KF", "EKF"])
        if base is not None and similar:       # same shapes, other values
            s = {**base["spec"], "seed": r.getrandbits(48)} if r.random() < 0.8 else dict(base["spec"])
            cls = base["cls"]
        else:
            s = spec_for(r, prop, cls, True, tier, Nmax)
        ins = {"spec": s, "cls": cls}
        if prop in ("C07", "C04", "C08", "C21") and r.random() < 0.2:
            ins["sing"] = r.randrange(s["N"])
            s["dtype"] = {k: v for k, v in s["dtype"].items() if k not in ("H", "R", "Q", "P")}
        insts.append(ins)
        base = ins
    total = 400 * T
    threads = []
    nops = r.randint(1, 3) if T > 1 else r.randint(1, 6)
    if prop == "C10":
        nops = r.randint(3, 8)
    own = {i: r.randrange(T) for i in range(ninst)} if prop in ("C10", "C16") else {}
    nxt = [ninst]
    tmp = []
    for t in range(T):
        ops = []
        mine = [i for i in range(ninst) if own.get(i, t) == t]
        if not mine:
            threads.append(ops)
            continue
        extra = []
        for _ in range(nops):
            i = r.choice(mine + extra)
            j = i if i < ninst else next(o["base"] for o in tmp if o["i"] == i)
            if prop in ("C10", "C16", "C08", "C07", "C04", "C21") and r.random() < (0.45 if prop == "C10" else 0.15):
                ops.append(history(r, prop, i, j, insts, extra, nxt, tmp, t, ops, owned=T == 1 or prop in ("C10", "C16"), T=T))
                ops = [o for o in ops if o]
                continue
            op = call(r, prop, i, insts[j]["spec"])
            faults(r, prop, op, i, insts[j], T)
            if prop in ("C09", "C10"):
                if r.random() < 0.4:
                    op["buf"] = t
                if r.random() < 0.3:
                    op["scribble"] = True
                if r.random() < 0.3 and prop == "C10":
                    op["droprefs"] = True
            ops.append(op)
            if prop in ("C04", "C07", "C08", "C21") and (op["faults"] or r.random() < 0.1) and r.random() < 0.6:
                again = {k: v for k, v in op.items() if k != "faults"}      # the caller tries again
                op["same"] = again["same"] = True
                again["faults"] = []
                if op["op"] in ("filter", "smooth") and r.random() < 0.25:
                    again["op"] = "smooth" if op["op"] == "filter" else "filter"
                if T == 1 and insts[j].get("sing") is None and r.random() < 0.3:      # with corrected parameters
                    ops.append(retune(r, i, insts[j]["cls"]))
                ops.append(again)
        threads.append(ops)
    plan = {"instances": insts, "threads": threads, "gran": "line" if longer else r.choice(["opcode", "opcode", "line"]),
            "schedule": schedule(r, total) if T > 1 else []}
    if prop == "C09":
        plan["np_seed"] = r.getrandbits(30)
    if prop == "C16":
        plan["env"] = [envspec(r), envspec(r)]
    return plan


def gen_long(prop, r, tier):
    """One caller, one filter, a record or a stream of a thousand steps and more."""
    cls = r.choice(["KF", "EKF"])
    s = spec_for(r, prop, cls, True, tier, 3)
    s["n"], s["m"], s["N"] = min(s["n"], 2), min(s["m"], 2), r.choice([300, 1030, 2100] + ([5000] if tier == "thorough" else []))
    s["qkind"], s["spikes"] = "full", []
    if s["akind"] in ("unstable", "rot", "cv", "ident"):
        s["akind"] = "stable"
    if "st" in s:
        s["st"].pop("A", None)
    if cls == "EKF":
        s["ekf"] = "linear"
    name = "smooth" if prop == "C04" else "filter" if prop == "C08" else r.choice(["filter", "smooth"])
    ops = [{"op": name, "i": 0, "d": 0, "faults": []}, {"op": "gains", "i": 0}]
    ops.append({"op": r.choice(["filter", "smooth", "update"]), "i": 0, "d": 1, "faults": [], "N": 3, "k": 0})
    return {"instances": [{"spec": s, "cls": cls}], "threads": [ops], "gran": "line", "schedule": [], "np_seed": 1}


def envspec(r):
    return {"np_seed": r.getrandbits(30), "clock": r.choice([0, 0, 1e9, -1e9, 86400 * r.randint(-400, 400)]),
            "rate": r.choice([1e-6, 1e-3, 1.0]), "gc": r.choice([0, 1, 2, 5, 1000]), "idle": r.choice([0, 0, 0, 1, 9]), "optimize": r.choice([0, 0, 0, 0, 1, 2]), "noise": r.randint(0, 30),
            "thread": r.random() < 0.5, "gcoff": r.random() < 0.3, "fpnoise": r.random() < 0.3,
            "own": r.choice([None, None, "1", "0", "9.9", "float32"]),
            "environ": r.choice([{}, {"LANG": "tr_TR.UTF-8"}, {"TZ": "Asia/Kathmandu"}, {"TZ": "NZST-12NZDT,M9.5.0,M4.1.0/3"}, {"TZ": "XXX+11"}, {"KALMANKIT_DEBUG": "1"}])}


def retune(r, i, cls):
    names = ["A", "H", "Q", "R", "B", "xk", "Pk"] if cls == "KF" else ["Q", "R", "xk", "Pk", "model"]
    return {"op": "retune", "i": i, "inplace": r.random() < 0.5, "names": sorted(r.sample(names, r.randint(1, len(names)))),
            "seed": r.getrandbits(40)}


def history(r, prop, i, j, insts, extra, nxt, tmp, t, ops, owned, T):
    """A history operation on filter i (its model is that of declared filter j)."""
    kinds = ["gains", "noise"]
    if owned:
        kinds += ["retune", "retune", "new", "copy", "pickle", "copy"]
        if i >= len(insts):
            kinds += ["retune"]
    elif T == 1:
        kinds += ["new", "copy", "pickle"]
    k = r.choice(kinds)
    if k == "retune" and insts[j].get("sing") is None:
        return retune(r, i, insts[j]["cls"])
    if k == "new" and i < len(insts):
        return {"op": "new", "i": i}
    if k in ("copy", "pickle"):
        n = nxt[0]
        nxt[0] += 1
        extra.append(n)
        tmp.append({"i": n, "base": j})
        return {"op": k, "i": n, "from": i}
    if k == "gains":
        return {"op": "gains", "i": i}
    return {"op": "noise", "k": r.randint(1, 20)}


def faults(r, prop, op, i, ins, T):
    f = op["faults"] = []
    ekf = ins["cls"] == "EKF"

    def where(p_nth=0.45):
        if ekf and r.random() < p_nth:
            return {"nth": r.randint(1, 2 + 3 * ins["spec"]["N"])}
        return {"frac": round(r.choice([r.random(), r.random() ** 3, 1 - r.random() ** 3]), 4)}

    def reent():
        o = call(r, prop, i, ins["spec"])
        o.pop("N", None)
        if o["op"] in ("filter", "smooth"):
            o["N"] = min(3, ins["spec"]["N"])
        return o

    p = r.random()
    if prop == "C06":
        if p < 0.25:
            f.append({"kind": "reenter", "op": reent(), **where()})
        if r.random() < 0.08:
            f.append({"kind": "gc", "frac": r.random()})
    elif prop == "C11":
        if p < 0.4:
            f.append({"kind": "stall", **where()})
        elif p < 0.55:
            w = where()
            f.append({"kind": "raise", "exc": r.choice(IN_FUNCTION if "nth" in w else ANY_INSTANT), **w})
        elif p < 0.75:
            f.append({"kind": "reenter", "op": reent(), **where()})
    elif prop in ("C07", "C04", "C08", "C21"):
        if p < {"C07": 0.5, "C04": 0.3, "C08": 0.25, "C21": 0.45}[prop]:
            w = where()
            f.append({"kind": "raise", "exc": r.choice(IN_FUNCTION if "nth" in w else ANY_INSTANT), **w})
        elif p < {"C07": 0.65, "C04": 0.38, "C08": 0.32, "C21": 0.6}[prop]:
            if op["op"] in ("filter", "smooth"):
                op["bad"] = r.randrange(ins["spec"]["N"])
            elif op["op"] == "update":
                op["sing"] = True
        elif p < {"C07": 0.7, "C04": 0.5, "C08": 0.45, "C21": 0.7}[prop]:
            f.append({"kind": "reenter", "op": reent(), **where()})
    elif prop == "C09":
        if p < 0.2:
            w = where()
            f.append({"kind": "raise", "exc": r.choice(IN_FUNCTION if "nth" in w else ANY_INSTANT), **w})
        elif p < 0.3 and op["op"] in ("filter", "smooth"):
            op["bad"] = r.randrange(ins["spec"]["N"])
        elif p < 0.34 and op["op"] == "update":
            op["sing"] = True
    elif prop in ("C10", "C16"):
        if p < 0.2:
            f.append({"kind": "gc", "frac": r.random()})
        elif p < 0.3:
            f.append({"kind": "clock", "d": r.choice([3600.0, -7200.0, 1e6]), "frac": r.random()})


# ----------------------------------------------------------------------------- shrinking
def chunks(lst):
    """Lists with parts removed, coarse to fine."""
    n = len(lst)
    size = n
    while size >= 1:
        for a in range(0, n, size):
            yield lst[:a] + lst[a + size:]
        if size == 1:
            break
        size = (size + 1) // 2


def shrink(plan):
    c = copy.deepcopy

    def with_(key, val):
        p = c({k: v for k, v in plan.items() if k != key})
        p[key] = c(val)
        return p
    # fewer callers
    if len(plan["threads"]) > 1:
        for t in range(len(plan["threads"])):
            yield with_("threads", plan["threads"][:t] + plan["threads"][t + 1:])
    # fewer operations
    for t, ops in enumerate(plan["threads"]):
        if ops:
            for o in chunks(ops):
                if o or len(plan["threads"]) > 1:
                    yield with_("threads", plan["threads"][:t] + [o] + plan["threads"][t + 1:])
    # simpler schedule
    sch = plan.get("schedule", [])
    if sch:
        yield with_("schedule", [])
        for k in (1, 2, 3, 5, len(sch) // 4, len(sch) // 2, len(sch) - 1):
            if 0 < k < len(sch):
                yield with_("schedule", sch[:k])
        if len(sch) <= 60:
            for i in range(len(sch) - 1):      # merge neighbouring quanta
                m = sch[:i] + [[sch[i][0] + sch[i + 1][0], sch[i + 1][1]]] + sch[i + 2:]
                yield with_("schedule", m)
    # fewer faults, simpler operations
    for t, ops in enumerate(plan["threads"]):
        for j, op in enumerate(ops):
            fs = op.get("faults") or []

            def put(o):
                return with_("threads", plan["threads"][:t] + [ops[:j] + [o] + ops[j + 1:]] + plan["threads"][t + 1:])
            for q in range(len(fs)):
                yield put({**op, "faults": fs[:q] + fs[q + 1:]})
            for key in ("bad", "sing", "buf", "scribble", "droprefs", "omitU", "noctl", "same", "neutral", "sensor", "lost", "positional"):
                if op.get(key) is not None:
                    yield put({k: v for k, v in op.items() if k != key})
            if op.get("d"):
                yield put({**op, "d": 0})
            if op["op"] == "retune" and len(op["names"]) > 1:
                for q in range(len(op["names"])):
                    yield put({**op, "names": op["names"][:q] + op["names"][q + 1:]})
            if op["op"] == "smooth":
                yield put({**op, "op": "filter"})
    # simpler models
    for i, ins in enumerate(plan["instances"]):
        if ins.get("sing") is not None:
            yield with_("instances", plan["instances"][:i] + [{k: v for k, v in ins.items() if k != "sing"}]
                        + plan["instances"][i + 1:])
        for s in models.shrink_spec(ins["spec"]):
            if ins.get("sing") is not None and ins["sing"] >= s["N"]:
                continue
            yield with_("instances", plan["instances"][:i] + [{**ins, "spec": s}] + plan["instances"][i + 1:])
    if plan.get("gran") == "opcode":
        yield with_("gran", "line")


def describe(plan):
    out = []
    for t, ops in enumerate(plan["threads"]):
        out.append("caller %d: " % t + ", ".join(
            op["op"] + ("@%d" % op["i"] if "i" in op else "")
            + "".join("[%s%s]" % (f["kind"], ":" + f["exc"] if "exc" in f else "") for f in op.get("faults") or [])
            + ("[bad]" if op.get("bad") is not None else "") + ("[singular]" if op.get("sing") else "")
            for op in ops))
    return {"filters": ["%s n=%d m=%d N=%d %s ctl=%s" % (i["cls"], i["spec"]["n"], i["spec"]["m"], i["spec"]["N"],
                                                         i["spec"]["form"], i["spec"]["ctl"])
                        for i in plan["instances"]],
            "callers": out, "handovers": len(plan.get("schedule", [])), "granularity": plan.get("gran")}
