"""C18: a successful exit means complete output (Output, OutputPlans, OutputTrace)."""
from lib.common import *
from lib.faults import *


def run(ctx):
    build()
    rng = ctx.rng
    ctx.model("Output", "Output_ok", deadlock=False)
    for v in ["drop", "once", "log", "last"]:
        ctx.negative_control("Output", f"Output_{v}", "Success", deadlock=False)
    t = ctx.tlc("OutputPlans", "OutputPlans", count=False, deadlock=False)
    kinds = t.prints("KIND ")
    plans = [json.loads(x) for x in t.prints("PLAN ")]
    ctx.expect(len(kinds) == 6 and len(plans) > 500, "plans are missing")

    bench = FaultBench(ctx)
    for _ in range(1 if ctx.quick else 4):
        ss = setups(ctx, bench, rng)
        bench.undisturbed(ss, "undisturbed runs")
        for setup in ss:
            n = setup.ncalls
            # one fault in each of the calls
            todo = [[(k, kind)] for kind in ["fail", "closed"] for k in range(1, n + 1)]
            todo += [[(k, kind)] for kind in ["full", "zero", "short", "intr"] for k in (rng.sample(range(1, n + 1), min(n, 8)) if ctx.quick else range(1, n + 1))]
            if ctx.quick and len(todo) > 70:
                # always the first and last calls of each file
                keep = [x for x in todo if x[0][0] in setup.edges]
                todo = keep + rng.sample(todo, max(0, 70 - len(keep)))
            for p in rng.sample(plans, 6 if ctx.quick else 60):
                todo.append([(1 + x * n // 16 + i, kind) for i, (x, kind) in enumerate(p)])
            bench.add(setup, todo)
    bench.run("runs with faults while files are written")
    for setup in setups(ctx, bench, rng, reading=True):
        n = setup.ncalls
        todo = [[(k, kind)] for kind in ["fail", "short", "intr"] for k in range(1, n + 1)]
        bench.add(setup, rng.sample(todo, min(len(todo), 40 if ctx.quick else 400)))
    bench.run("runs with faults while files are read")
