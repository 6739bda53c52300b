"""C07: the event distance is the optimal-pairing metric (Distance, DistanceModel, DistTrace)."""
import math
from lib.common import *
from lib.nets import *

PT = [(x, y) for x in range(-20, 21) for y in range(-20, 21) if math.isqrt(x * x + y * y) ** 2 == x * x + y * y]
SMALL = [p for p in PT if max(map(abs, p)) <= 5]


def run(ctx):
    build(bins=False)
    rng = ctx.rng
    ctx.model("DistanceModel", "DistanceModel_optimal")
    ctx.negative_control("DistanceModel", "DistanceModel_unpadded", "Identity")
    ctx.negative_control("DistanceModel", "DistanceModel_greedy", "Triangle")
    if not ctx.quick:
        ctx.model("DistanceModel", "DistanceModel_types")
        ctx.model("DistanceModel", "DistanceModel_wide")

    cases = []

    def add(evs, tn, td):
        """evs: lists of (pid, px, py, pz)"""
        full = [[[p[0], rng.randrange(-5, 60), *p[1:]] for p in e] for e in evs]
        mx = 1
        for e in evs:
            for p in e:
                for f in evs:
                    for q in f + [[0, 0, 0, 0]]:
                        dpt = math.hypot(p[1], p[2]) - math.hypot(q[1], q[2])
                        mx = max(mx, round((tn * dpt) ** 2) + td * td * sum((a - b) ** 2 for a, b in zip(p[1:], q[1:])))
        s = min(10 ** 5, math.isqrt((2 ** 31 - 1) // mx))
        n = len(evs)
        cases.append({"tau": tn / td, "tn": tn, "td": td, "scale": s, "ev": full, "plain": evs,
                      "w": [[rng.randrange(-5, 5) * 0.25, 1.5] for _ in evs],
                      "pairs": [[i, j] for i in range(n) for j in range(n)]})

    # the events of the model, along lines in momentum space
    dirs = [(1, 0, 0), (3, 4, 0), (-4, 3, 7), (0, -1, 1), (0, 0, 2)]
    for cfg in ("DistGen_types", "DistGen_wide"):
        gen = [json.loads(x) for x in ctx.tlc("DistGen", cfg, count=False).prints("CASE ")]
        for k in range(15 if ctx.quick else 150):
            d = rng.choice(dirs)
            t = rng.choice([{1: 81, 2: 82}, {1: -11, 2: 13}, {1: 22, 2: 81}])
            evs = []
            for e in rng.sample(gen, 10):
                evs.append([[t[p[0]], *(p[1] * x for x in d)] for p in rng.sample(e, len(e))])
            add(evs, *rng.choice([(0, 1), (0, 1), (3, 4), (1, 2), (5, 1)]))

    def particle(t, pts, pz):
        x, y = rng.choice(pts)
        return [rng.choice(t), x, y, rng.randrange(-pz, pz + 1)]

    # random events, copies with permuted particles and other energies, perturbed copies
    for k in range(600 if ctx.quick else 4000):
        types = rng.choice([[81], [81], [81, 82], [81, 22, 11, -11], [83, 82, 81, 24, -24, 11, 6]])
        pts, pz = rng.choice([(SMALL, 3), (PT, 20), (PT, 20), ([(1, 0), (0, 1), (-1, 0)], 1)])
        nmax = rng.choice([2, 3, 3, 4, 5, 7])
        evs = [[particle(types, pts, pz) for _ in range(rng.randrange(nmax + 1))] for _ in range(4)]
        e = rng.choice(evs)
        evs.append(rng.sample(e, len(e)))
        e = [list(p) for p in rng.choice(evs)]
        if e:
            p = rng.choice(e)
            p[rng.choice([1, 2, 3])] = 0
            p[1:] = p[1:] if math.isqrt(p[1] ** 2 + p[2] ** 2) ** 2 == p[1] ** 2 + p[2] ** 2 else [0, 0, p[3]]
            if rng.random() < 0.5:
                e.remove(rng.choice(e))
            rng.shuffle(e)
        evs.append(e)
        if rng.random() < 0.3:
            evs.append(e + [[rng.choice(types), 0, 0, 0]])
        add(evs, *rng.choice([(0, 1), (1, 1), (1, 2), (3, 2), (4, 1), (1, 4)]))

    res = ctx.harness("dist", vary(rng, cases, wexp=(), dexp=(-100, -40, -20, -7, 5, 13, 30, 100)))
    lines = []
    for c, r in zip(cases, res):
        n = len(c["ev"])
        v = [ival(x) for x in r.get("res", [])]
        z = [float(x) == 0 for x in r.get("txt", [])]
        m = [v[n * i:n * i + n] for i in range(n)] if len(v) == n * n else []
        lines.append({"ev": c["plain"], "tn": c["tn"], "td": c["td"], "s": c["scale"], "err": failure(r), "res": m,
                      "zero": [z[n * i:n * i + n] for i in range(n)]})
    ctx.validate("DistTrace", lines, what="distances", cases=sum(len(c["pairs"]) for c in cases))
