"""C16: classification splits files losslessly into valid files (Classification, ClassTrace)."""
from lib.common import *
from lib.classify import *


def run(ctx):
    build()
    rng = ctx.rng
    ctx.model("PartitionModel", "PartitionModel_ok6")
    q = 1 if ctx.quick else 8
    runs = [ToolRun(ctx, rng, f"t{k}", n=rng.choice([1, 2, 4, 8]), nsample=rng.choice([12, 15, 20]), nclass=rng.choice([0, 1, 2, 5, 12]),
                    cfiles=rng.choice([1, 2, 3, 4])) for k in range(250 * q)]
    check_tools(ctx, runs, "ClassTrace_class", "classified files")
