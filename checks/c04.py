"""C04: cells act atomically and never deadlock (CellLocks, ResampleConc, LockTrace, ConcTrace)."""
from lib.conc import *


def run(ctx):
    build(bins=False)
    rng = ctx.rng
    ctx.model("CellLocks", "CellLocks_sorted")
    if not ctx.quick:
        ctx.model("CellLocks", "CellLocks_sorted3")
    ctx.negative_control("CellLocks", "CellLocks_insertion", "Deadlock")
    ctx.negative_control("CellLocks", "CellLocks_unlockedsum", "Atomic")
    ctx.negative_control("CellLocks", "CellLocks_shortlocks", "Atomic")
    ctx.model("ResampleConc", "ResampleConc_n3" if ctx.quick else "ResampleConc_n3lim")
    if not ctx.quick:
        ctx.model("ResampleConc", "ResampleConc_n3live", timeout=850)

    # cells that block each other unless all locks are taken in one order
    gen = [json.loads(x) for x in ctx.tlc("LockGen", count=False).prints("CASE ")]
    gen = rng.sample(gen, min(len(gen), 240 if ctx.quick else 3000))
    cases = []
    for g in gen:
        cells = [[i - 1 for i in c] for c in g["cells"]]
        hold = [g["hold"] - 1]
        if rng.random() < 0.3:
            hold.append(rng.randrange(5))
        w = [[43200 * rng.choice([1, 2, 3]), 43200 * rng.choice([-2, -1, 3])] for _ in range(5)]
        for c in cells:
            w[c[0]][0] = -43200 * rng.choice([9, 12])
        if rng.random() < 0.3:
            third = rng.sample(range(5), 3)
            if third[0] not in (cells[0][0], cells[1][0]):
                cells.append(third)
                w[third[0]][0] = -43200 * 7
        cases.append({"w": w, "cells": cells, "hold": hold, "pause_ms": 4})
    parts = [cases[k::8] for k in range(8)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda k: sub_harness(ctx, "deadlock", parts[k], f"d{k}"), range(8)))
    lines = []
    for part, rs in zip(parts, res):
        for c, r in zip(part, rs):
            err = failure(r) or ("" if r["complete"] else "the cells never completed")
            mem = sorted(r.get("members", []))
            lines.append({"kind": "cells", "err": err, "w0": c["w"], "hold": c["hold"],
                          "seeds": [c["cells"][n][0] for n, _ in mem], "members": [m for _, m in mem],
                          "w": [[ival(x) for x in v] for v in r.get("w", [])]})
    ctx.validate("LockTrace", lines, what="cells averaged while an event is locked")

    # weight moved while the averaging waits for a lock
    cases = []
    for k in range(96 if ctx.quick else 1000):
        n = rng.choice([4, 5, 6])
        size = rng.randrange(2, n)
        m = rng.sample(range(n), size)
        w = [[4320 * rng.choice([1, 2, 5]), 4320 * rng.choice([-1, 2])] for _ in range(n)]
        w[m[0]][0] = -4320 * 30
        hold, other = rng.sample(m, 2)
        sink = rng.choice([i for i in range(n) if i not in m])
        cases.append({"w": w, "cell": m, "hold": hold, "other": other, "sink": sink,
                      "delta": 4320 * rng.choice([1, 4, -3]), "pause_ms": 6})
    parts = [cases[k::8] for k in range(8)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda k: sub_harness(ctx, "conserve", parts[k], f"c{k}"), range(8)))
    lines = []
    for part, rs in zip(parts, res):
        for c, r in zip(part, rs):
            err = failure(r) or ("stuck" if r.get("stuck") else "")
            lines.append({"kind": "transfer", "err": err, "w0": c["w"], "members": r.get("members", []),
                          "hold": c["hold"], "other": c["other"], "sink": c["sink"], "delta": c["delta"],
                          "early": bool(r.get("early")), "w": [[ival(x) for x in v] for v in r.get("w", [])]})
    ctx.validate("LockTrace", lines, what="weight moved during averaging")

    ctx.validate("ConcTrace", gated(ctx, 60 if ctx.quick else 1500), what="replayed schedules")
    ctx.validate("ConcTrace", free(ctx, 1000 if ctx.quick else 20000), what="free runs")
