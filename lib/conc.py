"""Concurrent resampling runs, shared by C01, C02 and C04."""
import json
from concurrent.futures import ThreadPoolExecutor
from lib.common import *
from lib.nets import *


def schedules(ctx, share_cfg):
    r = ctx.tlc("ResampleGates", share_cfg, env={"VERIF_SEED": ctx.seed}, timeout=850)
    return [json.loads(x) for x in sorted(set(r.prints("CASE ")))]


def gated(ctx, count):
    """replay schedules of the specification that break the design without re-check"""
    sch = schedules(ctx, "ResampleGates_n4" if ctx.quick else "ResampleGates_n4all")
    other = schedules(ctx, "ResampleGates_n3")
    ctx.rng.shuffle(sch)
    ctx.rng.shuffle(other)
    if not sch:
        raise CheckError("no schedules")
    sch = sch[:count] + other[:count // 3]
    cases = []
    for s in sch:
        neg = [i for i, w in enumerate(s["w"]) if w < 0]
        cases.append({"w": s["w"], "d": s["d"], "seeds": neg, "max": "none", "threads": len(neg),
                      "schedule": [str(i - 1) for i in s["sched"]], "quiet_ms": 12})
    vary(ctx.rng, cases)
    # several processes at once: the runs mostly wait
    parts = [cases[k::8] for k in range(8)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda k: sub_harness(ctx, "gated", parts[k], f"g{k}"), range(8)))
    lines = []
    for part, rs in zip(parts, res):
        for c, r in zip(part, rs):
            err = failure(r) or ("stuck" if r.get("stuck") else "")
            cells = [x["m"] for st in r.get("steps", []) for x in st["cells"]] + [x["m"] for x in r.get("rest", [])]
            lines.append({"w0": c["w"], "d": c["d"], "unlimited": True, "tol": 0, "err": err,
                          "cells": cells, "w": [ival(x[0]) for x in r.get("w", [])],
                          "schedule": c["schedule"]})
    return lines


def sub_harness(ctx, op, cases, tag):
    """like ctx.harness, for concurrent use"""
    if not cases:
        return []
    sub = Ctx.__new__(Ctx)
    sub.work, sub._n = ctx.tmp(f"{op}-{tag}"), 0
    return sub.harness(op, cases)


def free(ctx, count, unlimited=None):
    """freely running threads, slowed down at random inside the distance function"""
    rng = ctx.rng
    cases, lines = [], []
    for k in range(count):
        n = rng.choice([4, 5, 6, 7, 8])
        unl = rng.random() < 0.75 if unlimited is None else unlimited
        while True:
            w = [rng.choice([-3, -2, -1, -1, 1, 2, 3, 5, 8]) for _ in range(n)]
            neg = sum(x < 0 for x in w)
            if 2 <= neg <= 5 and sum(w) >= 0:
                break
        x = [[rng.randrange(1, 60), rng.randrange(60)] for _ in range(n)]
        d = [[max(abs(a - b) for a, b in zip(p, q)) for q in x] for p in x]
        cases.append({"w": [v * 1000000 for v in w], "d": d, "max": "none" if unl else rng.choice([10, 20, 30]),
                      "search": rng.choice(["tree", "naive"]), "threads": rng.choice([2, 3, 4, 8]),
                      "seeds": rng.sample([i for i in range(n) if w[i] < 0], neg),
                      "scale": 1, "spin": rng.choice([0, 2000, 20000])})
    res = ctx.harness("resample", vary(rng, cases))
    for c, r in zip(cases, res):
        lines.append({"w0": c["w"], "d": c["d"], "unlimited": c["max"] == "none", "tol": 20, "err": failure(r),
                      "cells": [x["m"] for x in r.get("cells", [])], "w": [x[0] for x in r.get("fx", [])]})
    return lines
