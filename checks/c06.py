"""C06: seeds are exactly the negative-weight events in strategy order (SeedQueue, SeedTrace)."""
import itertools
from lib.conc import *


def ranks(w):
    """order-preserving integers, zero (of either sign) staying zero"""
    v = sorted({float(x) for x in w if float(x) != 0})
    neg = [x for x in v if x < 0]
    r = {x: k - len(neg) if x < 0 else k - len(neg) + 1 for k, x in enumerate(v)}
    return [r.get(float(x), 0) for x in w]


def run(ctx):
    build(bins=False)
    rng = ctx.rng
    ctx.model("SeedQueue", "SeedQueue_one")
    ctx.model("SeedQueue", "SeedQueue_many")
    ctx.negative_control("SeedQueue", "SeedQueue_zero", "OnlyNegative")
    ctx.negative_control("SeedQueue", "SeedQueue_abs", "Ordered1")

    cases = []
    strategies = ["next", "most", "least", "default"]
    for n in (1, 2, 3, 4):
        for w in itertools.product([-2, -1, 0, 1], repeat=n):
            for s in strategies:
                cases.append({"w": list(w), "strategy": s, "threads": 1 + len(cases) % 4})
    special = ["-0.0", "0.0", "5e-324", "-5e-324", "-1e308", "1e308", "-1e-300", "-1", "1", "-1.0000000000000002",
               "-0.9999999999999999", "-2.5", "3.5"]
    for k in range(300 if ctx.quick else 6000):
        n = rng.choice([1, 5, 8, 40, 65, 129, 400])
        w = [rng.choice(special) if rng.random() < 0.3 else repr(rng.uniform(-1, 1) * 10 ** rng.randrange(-5, 5))
             for _ in range(n)]
        cases.append({"w": w, "strategy": rng.choice(strategies), "threads": rng.choice([1, 2, 8])})
    for k in range(3 if ctx.quick else 12):
        n = rng.choice([3000, 10000])
        cases.append({"w": [rng.randrange(-2000, 3000) for _ in range(n)], "strategy": rng.choice(strategies), "threads": 8})
    res = ctx.harness("seeds", cases)
    lines = [{"w": ranks(c["w"]), "strategy": c["strategy"], "err": failure(r), "seeds": r.get("seeds", [])}
             for c, r in zip(cases, res)]
    ctx.validate("SeedTrace", lines, what="selected seeds")

    # cells of a single thread are built in this order (cells of one event, nobody within reach);
    # with several threads still once each
    cases, lines = [], []
    for k in range(120 if ctx.quick else 1500):
        n = rng.choice([2, 5, 30, 64, 65, 200, 300])
        w = [rng.randrange(-500, 300) for _ in range(n)]
        cases.append({"w": w, "x": [[3 * i] for i in range(n)], "max": 1, "search": rng.choice(["tree", "naive"]),
                      "strategy": rng.choice(strategies), "threads": 1})
    res = ctx.harness("resample", vary(rng, cases))
    for c, r in zip(cases, res):
        lines.append({"w": c["w"], "strategy": c["strategy"], "err": failure(r),
                      "seeds": [x["m"][0] for x in r.get("cells", [])]})
    ctx.validate("SeedTrace", lines, what="order of cells with one thread")
