"""C05: both nearest-neighbour searches are exact (NearestNeighbour, VPTree, NNTrace)."""
import json
from lib.common import *
from lib.nets import *

BUILDS = ["tree", "naive", "seq", "par", "new", "seqdepth", "pardepth"]


def run(ctx):
    build(bins=False)
    rng = ctx.rng
    ctx.model("VPTree", "VPTree_ok")
    for v in ("cut", "greedy", "radius", "nometric"):
        ctx.negative_control("VPTree", f"VPTree_{v}", "Correct")
    if not ctx.quick:
        ctx.model("VPTree", "VPTree_ok4")
        ctx.model("VPTree", "VPTree_ok5", timeout=850)

    cases = []

    def add(pts, limit, build, q, depth=0, interleave=False, threads=2):
        c = {"limit": limit, "build": build, "depth": depth, "q": q, "interleave": interleave,
             "threads": threads, **pts}
        cases.append(c)

    # every pseudo-metric of the model, every construction, every limit; all
    # points queried, twice, partly consumed in between
    metrics = [json.loads(x) for x in ctx.tlc("NNGen", "NNGen_4_2", count=False).prints("CASE ")]
    m33 = [json.loads(x) for x in ctx.tlc("NNGen", "NNGen_3_3", count=False).prints("CASE ")]
    big = [json.loads(x) for x in ctx.tlc("NNGen", "NNGen_4_3", count=False).prints("CASE ")]
    big = rng.sample(big, 250 if ctx.quick else len(big))
    for d in m33 + metrics + big:
        n = len(d)
        q = [[p, n] for p in range(n)] + [[p, rng.randrange(n + 1)] for p in range(n)] + [[p, n] for p in range(n)]
        limits = ["max"] + [rng.randrange(0, 4)] if ctx.quick else ["max", 0, 1, 2]
        for limit in limits:
            for b in BUILDS:
                for depth in ([0, 1, 2] if b.endswith("depth") else [0]):
                    add({"d": d}, limit, b, q, depth, interleave=rng.random() < 0.3)
    # tiny sets
    for b in BUILDS:
        add({"d": [[0]]}, "max", b, [[0, 3]], 1)
        add({"d": [[0, 2], [2, 0]]}, 2, b, [[0, 3], [1, 3]], 1)
        add({"d": [[0, 2], [2, 0]]}, 1, b, [[0, 3], [1, 3]], 1)
    # larger sets with many ties, duplicates, graph metrics
    for k in range(150 if ctx.quick else 2500):
        kind = rng.choice(["coords", "graph", "fine"])
        n = rng.choice([5, 6, 7, 9, 12, 20, 40])
        if kind == "coords":
            pts = {"x": [[rng.randrange(6) for _ in range(2)] for _ in range(n)]}
        elif kind == "fine":
            dim = rng.choice([1, 2, 4])
            pts = {"x": [[rng.randrange(100000) for _ in range(dim)] for _ in range(n)]}
        else:
            pts = {"d": graph_metric(rng, n)}
        limit = rng.choice(["max", 0, 1, 2, 3, 5, 30000])
        q = [[rng.randrange(n), rng.choice([n, n, 1, 3])] for _ in range(8)]
        for b in BUILDS:
            add(pts, limit, b, q, rng.choice([0, 1, 2, 3, 5]), interleave=rng.random() < 0.5,
                threads=rng.choice([1, 2, 4]))
    # sets large enough for the parallel construction
    for n in ([1001, 2300] if ctx.quick else [999, 1000, 1001, 1002, 2001, 2300, 4100]):
        for top, dim in ((30, 2), (1000000, 3)):
            pts = {"x": [[rng.randrange(top) for _ in range(dim)] for _ in range(n)]}
            for b in BUILDS:
                for limit in ("max", top // 10):
                    q = [[rng.randrange(n), 40] for _ in range(4)] + [[rng.randrange(n), n]]
                    add(pts, limit, b, q, rng.choice([1, 2, 4]), threads=8)

    res = ctx.harness("nn", vary(rng, cases, wexp=()))
    lines = []
    for c, r in zip(cases, res):
        lines.append({"d": c.get("d", []), "x": c.get("x", []),
                      "limit": 2000000000 if c["limit"] == "max" else c["limit"],
                      "q": c["q"], "build": c["build"], "depth": c["depth"],
                      "err": failure(r), "res": [[[i, ival(d)] for i, d in a] for a in r.get("res", [])]})
    ctx.validate("NNTrace", lines, what="neighbour queries", cases=sum(len(c["q"]) for c in cases))
