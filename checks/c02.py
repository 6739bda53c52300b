"""C02: no negative weight is left in any schedule (ResampleConc, ResampleGates, ConcTrace)."""
from lib.common import *
from lib.conc import *


def run(ctx):
    build(bins=False)
    ctx.model("ResampleConc", "ResampleConc_n3")
    ctx.negative_control("ResampleConc", "ResampleConc_race", "NoNegativeLeft")
    if not ctx.quick:
        ctx.model("ResampleConc", "ResampleConc_n4")
        ctx.model("ResampleConc", "ResampleConc_n4one")
    ctx.validate("ConcTrace", gated(ctx, 160 if ctx.quick else 3000), what="replayed schedules")
    ctx.validate("ConcTrace", free(ctx, 800 if ctx.quick else 20000, True), what="free runs")
