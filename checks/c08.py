"""C08: clustering maps particles to infrared-safe objects by fixed rules (Clustering, ClusteringModel, ClusTrace)."""
import math
from lib.common import *
from lib.nets import *

ALL = [1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 21, 6, -6, 11, -11, 13, -13, 15, -15, 12, -12, 14, -14, 16, -16, 22, 23, 24,
       -24, 25, 111, 211, -211, 2212, -2212, 2112, 321, 130, 310, 421, 511, 5122]
MIXES = [[21], [1, -2, 21, 5], [22, 21], [22, 21, 11, -11, 13], [11, -11, 22], [11, -13, 22, 12, -14, 16], ALL, ALL,
         [22, 12, 14, 13, -13, 15, 211], [6, -6, 21, 23, 24, -24, 25, 15], [211, 111, 2212, -2212, 130, 5122, 1]]


def run(ctx):
    build(bins=False)
    rng = ctx.rng
    ctx.model("ClusteringModel", "ClusteringModel_ok")
    ctx.negative_control("ClusteringModel", "ClusteringModel_lost", "Conserved")
    if not ctx.quick:
        ctx.model("ClusteringModel", "ClusteringModel_partons")
        ctx.model("ClusteringModel", "ClusteringModel_ok3", timeout=850)
    cases = []

    def jetdef(hard=True):
        # no cut on a transverse momentum that particles can have exactly
        return [rng.choice(["kt", "antikt", "ca"]), rng.choice([1000, 4000, 4000, 7000, 10000, 10000, 15000, 24000]),
                rng.choice([0, 1, 37, 113, 214, 391]) if hard else rng.choice([0, 0, 33, 97])]

    def settings():
        return {"jet": jetdef(), "lep": jetdef(False) if rng.random() < 0.5 else [],
                "pho": [*rng.choice([[1, 2], [1, 1], [3, 2], [1, 4], [1, 16], [2, 1]]),
                        rng.choice([1000, 4000, 8000, 20000, 31000]), rng.choice([0, 0, 50, 123, 100])] if rng.random() < 0.6 else [],
                "nu": rng.random() < 0.4}

    def particle(types, span, flat):
        while True:
            x, y = rng.randrange(-span, span + 1), rng.randrange(-span, span + 1)
            if rng.random() < 0.4:
                x, y = rng.choice([(3, 4), (5, 0), (-4, 3), (0, 5), (-6, -8), (8, 6), (0, -10), (5, 12)])
            if x or y:
                break
        z = 0 if flat else rng.randrange(-span, span + 1)
        m = math.sqrt(x * x + y * y + z * z)
        e = max(math.ceil(m), abs(z) + 1) + rng.choice([0, 0, 0, 1, 5])
        return [rng.choice(types), e, x, y, z]

    def add(ev, **s):
        cases.append({"ev": ev, "w": [rng.randrange(-9, 9), 35, -12][:rng.randrange(1, 4)],
                      "id": rng.randrange(10 ** 6), **(settings() | s)})

    gen = [json.loads(x) for x in ctx.tlc("ClusGen", count=False).prints("CASE ")]
    for e in gen if not ctx.quick else rng.sample(gen, 1200):
        add(rng.sample(e, len(e)))
    # every kind of particle on its own, under each kind of setting
    for t in ALL:
        for lep in ([], ["ca", 4000, 0]):
            for pho in ([], [1, 2, 4000, 0]):
                for nu in (True, False):
                    add([[t, 6, 3, -4, 1]], lep=lep, pho=pho, nu=nu, jet=["antikt", 4000, 11])
    for k in range(8000 if ctx.quick else 60000):
        types = rng.choice(MIXES)
        n = rng.choice([1, 2, 3, 4, 5, 6]) if types[-1] == 511 else rng.choice([1, 2, 3, 4, 5])
        flat = rng.random() < 0.5
        ev = [particle(types, rng.choice([4, 10, 40]), flat) for _ in range(n)]
        if rng.random() < 0.3:  # something close to a photon
            p = rng.choice(ev)
            ev.append([rng.choice(types)] + [v * 2 for v in p[1:]])
        add(ev)
    add([])

    hc = [{"jet": [c["jet"][0], c["jet"][1] / 1e4, c["jet"][2] / 10], "nu": c["nu"], "ev": c["ev"], "w": c["w"],
           "id": c["id"], "scale": 1,
           **({"lep": [c["lep"][0], c["lep"][1] / 1e4, c["lep"][2] / 10]} if c["lep"] else {}),
           **({"pho": [c["pho"][0] / c["pho"][1], c["pho"][2] / 1e4, c["pho"][3] / 10]} if c["pho"] else {})}
          for c in cases]
    for h in hc:
        for k in ("jet", "lep"):
            if k in h:
                h[k][0] = {"kt": "kt", "antikt": "anti-kt", "ca": "Cambridge/Aachen"}[h[k][0]]
    res = ctx.harness("clus", vary(rng, hc, wexp=(), dexp=(-20, -9, -4, 3, 10, 20)))
    lines = [{"ev": c["ev"], "jet": c["jet"], "lep": c["lep"], "pho": c["pho"], "nu": c["nu"], "err": failure(r),
              "out": [[ival(x) for x in p] for p in r.get("out", [])],
              "w0": c["w"], "w1": [ival(x) for x in r.get("w", [])],
              "id0": c["id"], "id1": ival(r.get("id", -1))} for c, r in zip(cases, res)]
    ctx.validate("ClusTrace", lines, what="clustering", timeout=850)
