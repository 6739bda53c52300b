"""C22: STRIPPER weights are normalised on input and restored on output (Run, RunModel, RunTrace)."""
from lib.common import *
from lib.e2e import *

CONTRIBUTIONS = ["LO", "nlo x", "RR", "R", "a & b", "g g -> t t~", "x<y>", "\u00e9", "LO "]


def run(ctx):
    build()
    rng = ctx.rng
    ctx.model("RunModel", "RunModel_ok" if ctx.quick else "RunModel_all")
    ctx.negative_control("RunModel", "RunModel_factor")

    q = 1 if ctx.quick else 8
    runs = []
    for k in range(350 * q):
        cs = rng.sample(CONTRIBUTIONS, rng.randrange(1, 4))
        rs = simple_runs(ctx, rng, 1, key=f"s{k}_", formats=["stripper"] if rng.random() < 0.7 else ["stripper", "hepmc", "lhef"],
                         nfiles=rng.randrange(1, 6), scales=[None, None, 0.25, 2.0], contributions=cs, unweight=rng.random() < 0.2)
        r = rs[0]
        runs.append(r)
        if rng.random() < 0.1 and r.layout.norms:
            # a cross section is missing
            _, path = rng.choice(r.layout.norms)
            r.layout.infiles.remove(path)
            r.argv.remove(str(path))
    # normalisation files for contributions without events, and nothing else
    for k in range(10 * q):
        r = simple_runs(ctx, rng, 1, key=f"x{k}_", formats=["hepmc", "stripper"])[0]
        runs.append(r)
        path = r.layout.dir / "unused.xml"
        r.layout.items.append((path, normalization("unused", "12.5").encode(), None))
        r.layout.infiles.append(path)
        r.argv.append(str(path))
    check_runs(ctx, runs, "runs on STRIPPER samples")
