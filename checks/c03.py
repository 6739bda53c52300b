"""C03: a cell is the smallest sufficient set of nearest neighbours (Resampling, ResampleConc, ResampleTrace)."""
import math
from lib.conc import *

BIG = 2000000000


def line(c, r):
    lim = BIG if c["max"] == "none" else c["max"]
    cells = [{"m": x["m"], "n": x["n"], "r": ival(x["r"]), "s": ival(x["s"])} for x in r.get("cells", [])]
    return {"w0": c["w"], "d": c["d"], "limit": lim, "strategy": c.get("strategy", "list"),
            "seeds": c["seeds"] if "seeds" in c else c["order"], "err": failure(r),
            "finished": r.get("finished", 0), "ids": r.get("ids", []), "cells": cells,
            "w": [[ival(x) for x in v] for v in r.get("w", [])]}


def order(w, strategy):
    """the seed order if it is unique, else None"""
    neg = [i for i in range(len(w)) if w[i][0] < 0]
    if strategy == "next":
        return neg
    if len({w[i][0] for i in neg}) < len(neg):
        return None
    return sorted(neg, key=lambda i: w[i][0], reverse=strategy == "least")


def run(ctx):
    build(bins=False)
    rng = ctx.rng
    ctx.model("ResampleConc", "ResampleConc_n3one")
    ctx.negative_control("ResampleConc", "ResampleConc_racemin", "OneAtATimeMinimal")
    if not ctx.quick:
        ctx.model("ResampleConc", "ResampleConc_n4one")

    cases = []

    def add(w, d, limit, seeds=None, strategy=None, search=None):
        c = {"w": w, "d": d, "max": limit, "search": search or rng.choice(["tree", "naive"]), "threads": 1}
        if seeds is not None:
            c["seeds"] = seeds
        else:
            o = order(w, strategy)
            if o is None:
                return
            c["strategy"], c["order"] = strategy, o
        cases.append(c)

    # exhaustive small problems; a second weight must follow the first
    for cfg, scale, share in (("CellGen_n2", 4, 1), ("CellGen_n3", 216, 0.35), ("CellGen_n4", 12 ** 4, 0.25)):
        gen = [json.loads(x) for x in ctx.tlc("CellGen", cfg, count=False).prints("CASE ")]
        if ctx.quick and share < 1:
            gen = rng.sample(gen, int(share * len(gen)))
        for g in gen:
            n = len(g["w"])
            w = [[scale * v, scale * rng.choice([-1, 0, 2])] for v in g["w"]]
            neg = [i for i in range(n) if g["w"][i] < 0]
            for limit in (["none", rng.choice([0, 1, 2])] if ctx.quick else ["none", 0, 1, 2]):
                for search in ("tree", "naive"):
                    seeds = rng.sample(neg, len(neg))
                    # positive and zero events may be proposed as well
                    if rng.random() < 0.3:
                        seeds.insert(rng.randrange(len(seeds) + 1), rng.choice([i for i in range(n) if i not in neg] or neg))
                        seeds = list(dict.fromkeys(seeds))
                    add(w, g["d"], limit, seeds=seeds, search=search)
    # random problems with up to 10 events
    for k in range(2500 if ctx.quick else 60000):
        n = rng.choice([4, 5, 6, 6, 8, 10])
        maxneg = {4: 4, 5: 4, 6: 4, 8: 2, 10: 2}[n]
        scale = {4: 12 ** 4, 5: 60 ** 4, 6: 60 ** 4, 8: 840 ** 2, 10: 2520 ** 2}[n]
        top = {4: 9, 5: 5, 6: 5, 8: 9, 10: 9}[n]
        nneg = rng.randrange(1, maxneg + 1)
        w = [rng.randrange(0, top) for _ in range(n)]
        for i in rng.sample(range(n), nneg):
            w[i] = -rng.randrange(1, top)
        kind = rng.random()
        if kind < 0.4:
            d = graph_metric(rng, n, rng.choice([2, 5]))
        else:
            span = rng.choice([4, 10, 1000])
            x = [[rng.randrange(span), rng.randrange(span)] for _ in range(n)]
            d = [[max(abs(a - b) for a, b in zip(p, q)) for q in x] for p in x]
        flat = sorted({v for r in d for v in r})
        limit = rng.choice(["none", "none", rng.choice(flat), rng.choice(flat)])
        ww = [[scale * v] for v in w]
        for _ in range(rng.choice([0, 0, 1]) if rng.random() < 0.97 else rng.randrange(2, 40)):
            for i in range(n):
                ww[i].append(scale * rng.choice([-3, 0, 1, 2]))
        if rng.random() < 0.5:
            neg = [i for i in range(n) if w[i] < 0]
            add(ww, d, limit, seeds=rng.sample(neg, len(neg)))
        else:
            add(ww, d, limit, strategy=rng.choice(["next", "most", "least"]))
    res = ctx.harness("resample", vary(rng, cases))
    ctx.validate("ResampleTrace", [line(c, r) for c, r in zip(cases, res)], what="single-threaded runs", timeout=850)
