"""C01: resampling conserves the total weight (ResampleConc, CellLocks, SumTrace, ConcTrace)."""
from lib.conc import *


def run(ctx):
    build(bins=False)
    rng = ctx.rng
    ctx.model("ResampleConc", "ResampleConc_n3")
    ctx.model("CellLocks", "CellLocks_sorted3")
    ctx.negative_control("CellLocks", "CellLocks_lost", "Conserved")
    if not ctx.quick:
        ctx.model("ResampleConc", "ResampleConc_n3lim")
        ctx.model("ResampleConc", "ResampleConc_n4")

    cases = []
    sizes = [1, 2, 3, 4, 7, 12, 30, 80, 200] + ([600] if ctx.quick else [600, 1500, 3000])
    for k in range(400 if ctx.quick else 4000):
        n = rng.choice(sizes[:-1]) if rng.random() < 0.96 else sizes[-1]
        nw = rng.choice([1, 1, 2, 3, 6, 1, 2, 3, rng.choice([9, 17, 40]) if n <= 30 else 1])
        # fixed point with 3 digits before and after the point
        f = rng.choice([0.05, 0.2, 0.45, 0.6])
        span = rng.choice([9, 1000, 999999])
        w = [[(-1 if rng.random() < f else 1) * rng.randrange(span + 1) for _ in range(nw)] for _ in range(n)]
        top = rng.choice([3, 40, 10000])
        x = [[rng.randrange(top), rng.randrange(top)] for _ in range(n)]
        cases.append({"w": w, "x": x, "max": rng.choice(["none", "none", 0, top // 20, top // 3]),
                      "search": rng.choice(["tree", "naive"]),
                      "strategy": rng.choice(["next", "most", "least", "default"]),
                      "threads": rng.choice([1, 2, 4, 8]), "scale": 1,
                      **({"spin": 300} if n < 100 and rng.random() < 0.3 else {})})
    res = ctx.harness("resample", vary(rng, cases))
    lines = []
    for c, r in zip(cases, res):
        lines.append({"w0": c["w"], "w": r.get("fx", []), "ids": r.get("ids", []), "tol": 1, "err": failure(r),
                      "threads": c["threads"],
                      "cells": len(r.get("cells", [])), "drift": r.get("drift", [])})
    ctx.validate("SumTrace", lines, what="complete runs")
    ctx.validate("ConcTrace", free(ctx, 500 if ctx.quick else 10000), what="free runs")
    ctx.validate("ConcTrace", gated(ctx, 60 if ctx.quick else 1500), what="replayed schedules")
