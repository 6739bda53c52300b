"""C11: named weights are resampled in the same cells and written back by name (EventFile, Run, RunModel, RunTrace, IoTrace)."""
from lib.common import *
from lib.e2e import *
from lib.sets import *
from checks.c25 import history_line, outputs


def run(ctx):
    build()
    rng = ctx.rng
    ctx.model("RunModel", "RunModel_ok" if ctx.quick else "RunModel_all")
    ctx.negative_control("RunModel", "RunModel_position")

    q = 1 if ctx.quick else 8
    runs = simple_runs(ctx, rng, 250 * q, key="n", names=True, missing=0.12)
    runs += simple_runs(ctx, rng, 60 * q, key="b", names=True, sizes=(16, 20), settings={"tau": [0, 1]})
    runs += simple_runs(ctx, rng, 60 * q, key="u", names=True, unweight=True)
    runs += simple_runs(ctx, rng, 12 * q, key="m", names=True, many=True, sizes=(2, 3, 4))
    # formats without named weights
    for r in simple_runs(ctx, rng, 30 * q, key="f", formats=["lhef", "stripper"]):
        name = rng.choice(NAMES)
        r.settings.names = [name]
        r.argv = ["--weights", name] + r.argv
        runs.append(r)
    check_runs(ctx, runs, "runs with named weights")

    # columns written by name, for arbitrary new weights and different orders in each record
    d = ctx.tmp("io")
    sets, cases, files, compr = [], [], [], []
    for k in range(400 * q):
        nfiles = rng.choice([1, 2])
        names = rng.sample(NAMES, rng.randrange(2, 6)) if k % 25 else rng.sample(MANY, rng.randrange(8, len(MANY) + 1))
        s = FileSet(ctx, d, rng, k, nfiles, sizes=[rng.choice([1, 2, 5]) for _ in range(nfiles)], names=names, maxparts=2)
        ask = rng.sample(names, rng.randrange(1, len(names) + 1))
        w = lambda: [repr(random_weight(rng)) for _ in range(1 + len(ask))]
        ops = [["all", [w() for _ in range(s.n)]]] if rng.random() < 0.7 else [["upd", w()] for _ in range(s.n + 1)]
        sets.append(s)
        files += s.items
        compr.append(None)
        cases.append({"files": s.pairs, "names": ask, "compression": None, "ops": ops})
    write_files(ctx, files)
    res = ctx.harness("io", cases, timeout=300)
    ctx.validate("IoTrace", [history_line(s, c, r, o) for s, c, r, o in zip(sets, cases, res, outputs(ctx, sets, compr))],
                 what="updates of named weights", timeout=800)
