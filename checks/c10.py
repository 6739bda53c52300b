"""C10: output differs from input only in the resampled event weights (EventFile, EventIO, IoTrace, Run, RunTrace)."""
from lib.common import *
from lib.e2e import *
from lib.sets import *
from checks.c25 import history_line, outputs


def f64(rng):
    """weights as text, over the whole range of numbers"""
    while True:
        r = rng.random()
        if r < 0.3:
            x = struct.unpack("<d", rng.randbytes(8))[0]
        elif r < 0.4:
            x = float(rng.randrange(-2 ** 53, 2 ** 53)) * 2.0 ** rng.randrange(-60, 60)
        elif r < 0.5:
            x = rng.choice([0.0, 5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, 0.1, -1 / 3, 1e21, 1e-5, 1e16, 123456789.125])
        else:
            x = random_weight(rng)
        # room for the conversion of STRIPPER weights
        if x == x and (x == 0 or 1e-300 < abs(x) < 1e300):
            return repr(x)


def run(ctx):
    build()
    rng = ctx.rng
    ctx.model("RunModel", "RunModel_ok" if ctx.quick else "RunModel_all")
    ctx.negative_control("RunModel", "RunModel_shifted")

    # complete updates with arbitrary weights
    d = ctx.tmp("io")
    sets, cases, files, compr = [], [], [], []
    for k in range(500 if ctx.quick else 5000):
        nfiles = rng.choice([1, 1, 2, 3])
        names = rng.sample(NAMES, rng.randrange(1, 4)) if rng.random() < 0.3 else None
        sizes = [rng.choice([0, 1, 2, 5, 20, 20, rng.choice([60, 200])]) for _ in range(nfiles)]
        s = FileSet(ctx, d, rng, k, nfiles, sizes=sizes, names=names, maxparts=rng.choice([3, 8]))
        ask = rng.sample(names, rng.randrange(len(names) + 1)) if names else []
        w = lambda: [] if rng.random() < 0.1 else [f64(rng) for _ in range(1 + len(ask))]
        ops = [["next"]] * rng.choice([0, 0, 1, s.n, s.n + 1]) + [["all", [w() for _ in range(s.n)]]]
        sets.append(s)
        files += s.items
        compr.append(rng.choice(COMPR))
        cases.append({"files": s.pairs, "names": ask, "compression": compr[-1], "ops": ops})
    write_files(ctx, files)
    res = ctx.harness("io", cases, timeout=300)
    lines = [history_line(s, c, r, o) for s, c, r, o in zip(sets, cases, res, outputs(ctx, sets, compr))]
    ctx.validate("IoTrace", lines, what="complete updates", timeout=800)

    # complete runs of the program
    runs = simple_runs(ctx, rng, 300 if ctx.quick else 2500)
    runs += simple_runs(ctx, rng, 60 if ctx.quick else 500, key="n", names=True)
    runs += simple_runs(ctx, rng, 60 if ctx.quick else 500, key="b", sizes=(20, 30), settings={"tau": [0, 1]})
    check_runs(ctx, runs, "runs of cres")
