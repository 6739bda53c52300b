"""C14: events without identified particles pass through unchanged (Clustering, Run, RunModel, RunTrace, PairTrace)."""
from lib.common import *
from lib.e2e import *


def run(ctx):
    build()
    rng = ctx.rng
    ctx.model("RunModel", "RunModel_ok" if ctx.quick else "RunModel_all")
    ctx.negative_control("RunModel", "RunModel_shifted")

    q = 1 if ctx.quick else 8
    runs, pairs = [], []
    for k in range(250 * q):
        rs = simple_runs(ctx, rng, 1, key=f"r{k}_", names=rng.random() < 0.3, unweight=rng.random() < 0.4,
                         empty=False)
        runs += rs
        r = rs[0]
        r.layout.items and None
        # the same with additional events that do not take part
        s, ev = r.settings, list(r.events)
        for _ in range(rng.choice([1, 2, 5])):
            ev.insert(rng.randrange(len(ev) + 1), nothing(rng, s, len(r.events[0]["w"]) if r.events else 1))
        b = again(ctx, r, rng, f"p{k}", events=ev)
        b.events, b.cols = ev, r.cols
        runs.append(b)
        pairs.append((r, b))
    check_runs(ctx, runs, "runs with and without further events")
    check_pairs(ctx, pairs, "influence of further events")
