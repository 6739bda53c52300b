"""C15: a partition assigns every event to one region, balanced and stably
(Partition, PartitionModel, PartTrace, Classification, ClassTrace)."""
import json
from lib.common import *
from lib.classify import *
from lib.nets import vary


def points(ctx):
    """partitions of points with given distances"""
    rng = ctx.rng
    cases = []

    def add(pts, sample, depth):
        cases.append({**pts, "sample": sample, "depth": depth, "par": rng.random() < 0.5})

    m42 = [json.loads(x) for x in ctx.tlc("NNGen", "NNGen_4_2", count=False).prints("CASE ")]
    m33 = [json.loads(x) for x in ctx.tlc("NNGen", "NNGen_3_3", count=False).prints("CASE ")]
    for d in m42 + m33:
        for sample in range(2, len(d) + 1):
            add({"d": d}, sample, 1)
    least = {1: 2, 2: 5, 3: 11, 4: 23}
    for k in range(1500 if ctx.quick else 20000):
        depth = rng.choice([0, 1, 2, 2, 3, 4])
        n = least.get(depth, 1) + rng.choice([0, 0, 1, 2, 3, 5, 10])
        more = rng.randrange(0, 6)
        kind = rng.choice(["coords", "graph", "fine"])
        if kind == "graph" and n < 20:
            pts = {"d": graph_metric(rng, n + more, rng.choice([3, 5, 40]))}
        elif kind == "coords" and n < 20:
            # few distinct points
            pts = {"x": [[rng.randrange(rng.choice([6, 15])) for _ in range(2)] for _ in range(n + more)]}
        else:
            dim = rng.choice([1, 2, 4])
            pts = {"x": [[rng.randrange(100000) for _ in range(dim)] for _ in range(n + more)]}
        add(pts, n, depth)
    # large enough for the parallel construction
    for n in [999, 1000, 1001, 1500, 2300] if ctx.quick else [999, 1000, 1001, 1002, 1500, 2001, 2002, 2003, 2300, 4100]:
        for depth in (1, 3, 5):
            pts = {"x": [[rng.randrange(10 ** 8) for _ in range(2)] for _ in range(n + 20)]}
            add(pts, n, depth)
            cases[-1]["par"] = True
    res = ctx.harness("part", vary(rng, cases, wexp=()), timeout=300)
    lines = [{"d": c.get("d", []), "x": c.get("x", []), "sample": c["sample"], "depth": c["depth"], "err": failure(r),
              "n": ival(r.get("n")), "regions": r.get("regions", []), "vp": [[p, ival(d)] for p, d in r.get("vp", [])]}
             for c, r in zip(cases, res)]
    ctx.validate("PartTrace", lines, what="partitions", timeout=600)


def run(ctx):
    build()
    rng = ctx.rng
    ctx.model("PartitionModel", "PartitionModel_ok")
    for v in ("swapped", "small") + (() if ctx.quick else ("mean",)):
        ctx.negative_control("PartitionModel", f"PartitionModel_{v}")
    if not ctx.quick:
        ctx.model("PartitionModel", "PartitionModel_ok6")
        ctx.model("PartitionModel", "PartitionModel_ok3")
    points(ctx)
    q = 1 if ctx.quick else 8
    runs = [ToolRun(ctx, rng, f"t{k}") for k in range(300 * q)]
    runs += [ToolRun(ctx, rng, f"l{k}", exact=False, n=rng.choice([8, 16, 32]), nsample=rng.choice([60, 90, 130]), nclass=60, kind="any") for k in range(8 * q)]
    check_tools(ctx, runs, "ClassTrace_part", "partitions from files")
