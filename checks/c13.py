"""C13: events discarded by unweighting carry no weight in the output (Unweight, Run, RunModel, RunTrace)."""
from lib.common import *
from lib.e2e import *


def run(ctx):
    build(harness=True)
    rng = ctx.rng
    ctx.model("RunModel", "RunModel_unw")
    ctx.negative_control("RunModel", "RunModel_discarded")

    q = 1 if ctx.quick else 8
    runs = simple_runs(ctx, rng, 300 * q, key="u", unweight=True)
    runs += simple_runs(ctx, rng, 150 * q, key="n", unweight=True, names=True)
    check_runs(ctx, runs, "runs with unweighting")
    # how much was discarded
    zero = sum(1 for r in runs for f, raw in zip(r.layout.files, r.raw)
               for a, b in zip(parse(f["fmt"], raw)["recs"], parse(f["fmt"], content(f))["recs"])
               if float(a["w"][0]) == 0 != float(b["w"][0]))
    ctx.cov["samples"].append(f"{zero} discarded events")
    if zero < len(runs) // 4:
        raise CheckError("hardly any event was discarded")
