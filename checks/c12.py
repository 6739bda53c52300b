"""C12: unweighting keeps, discards and rescales as documented (Unweight, UnweightModel, UnwTrace)."""
from lib.common import *
from lib.nets import *

D = 60


def clear(w, m, u):
    a = abs(w)
    return m == 0 or a >= m or (u + 1) * m <= D * a or u * m >= D * a


def run(ctx):
    build(bins=False)
    rng = ctx.rng
    ctx.model("UnweightModel", "UnweightModel_ok")
    ctx.negative_control("UnweightModel", "UnweightModel_closed", "Unbiased")
    ctx.negative_control("UnweightModel", "UnweightModel_flat")
    if not ctx.quick:
        ctx.model("UnweightModel", "UnweightModel_ok3")

    gen = [json.loads(x) for x in ctx.tlc("UnwGen", count=False).prints("CASE ")]
    if ctx.quick:
        gen = rng.sample(gen, min(len(gen), 6000))
    cases = []

    def add(ev, m, u=None):
        # largest scale for which the integers of the specification stay small
        top = max([abs(x) for v in ev for x in v], default=1) or 1
        tot = sum(max(abs(v[0]), m) for v in ev) or 1
        bound = top * max(m, 1) * tot
        scale = max(1, min(1000, 10 ** 9 // bound))
        c = {"w": ev, "min": m, "scale": scale, "threads": rng.choice([1, 2, 4])}
        if u is None:
            c["seed"] = rng.randrange(2 ** 40)
        else:
            c.update(u=[u], den=D)
        cases.append(c)

    for g in gen:
        add([[w, rng.randrange(-3, 4)] if rng.random() < 0.5 else [w] for w in g["w"]], g["m"], g["u"])
    # larger samples: constant streams and real random numbers
    for k in range(1500 if ctx.quick else 12000):
        n = rng.choice([1, 2, 5, 10, 30])
        m = rng.choice([1, 2, 3, 5, 7, 10])
        nw = rng.choice([1, 1, 2, 3])
        top = rng.choice([m, 2 * m, 12])
        u = rng.randrange(D) if rng.random() < 0.5 else None
        ev = []
        while len(ev) < n:
            w = rng.randrange(-top, top + 1)
            if u is None or clear(w, m, u):
                ev.append([w] + [rng.randrange(-9, 10) for _ in range(nw - 1)])
        add(ev, m, u)
    res = ctx.harness("unw", vary(rng, cases, dexp=()))
    lines = [{"kind": "run", "ev": c["w"], "m": c["min"], "u": c["u"][0] if "u" in c else -1, "D": D,
              "scale": c["scale"], "err": failure(r), "ids": r.get("ids", []),
              "out": [[ival(x) for x in v] for v in r.get("w", [])]} for c, r in zip(cases, res)]
    ctx.validate("UnwTrace", lines, what="unweighting", cases=len(lines))

    # how often events are kept, over many seeds
    lines, runs = [], 0
    for ws, m in (([1, -1, 2, 3, -3, 0, 4, 5], 4), ([-1, 1, 1, 2, -2], 3), ([1, -9, 3, 7, 0, -6], 10)):
        N = 1500 if ctx.quick else (4000 if m < 10 else 1500)
        base = rng.randrange(2 ** 30)
        res = ctx.harness("unw", [{"w": [[w] for w in ws], "min": m, "scale": 1, "threads": 1, "only_ids": True,
                                   "seed": base + s} for s in range(N)])
        runs += N
        kept = [set(r.get("ids", [])) for r in res]
        for i, a in enumerate(ws):
            lines.append({"kind": "stat", "a": abs(a), "m": m, "n": N, "k": sum(i in k for k in kept)})
            if m < 10:
                for j in range(i):
                    lines.append({"kind": "pair", "a": abs(a), "b": abs(ws[j]), "m": m, "n": N,
                                  "k": sum(i in k and j in k for k in kept)})
    ctx.validate("UnwTrace", lines, what="frequencies over seeds", cases=runs)
