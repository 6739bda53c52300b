"""C09: every event is read exactly once, in order and faithfully (EventFile, EventIO, CombinedIO, ReadTrace)."""
import sys
from lib.common import *
from lib.nets import *
from lib.samples import *


def event_ids(intern, e, mev):
    return {"w": [intern(("num", repr(float(x) + 0.0))) for x in e["w"]],
            "out": [[int(p[0]), *(intern(("num", momentum(x, None, mev))) for x in p[1:])] for p in e["out"]]}


def run(ctx):
    build(bins=False)
    rng = ctx.rng
    ctx.model("CombinedIO", "CombinedIO_ok")
    ctx.negative_control("CombinedIO", "CombinedIO_skip")

    cases, meta, files = [], [], []
    d = ctx.tmp("in")
    for k in range(2000 if ctx.quick else 15000):
        kind = rng.choice(["int", "dec", "exp", "any"])
        mode = rng.choice(["combined", "combined", "single"])
        names = rng.sample(NAMES, rng.randrange(1, 5)) if rng.random() < 0.4 else None
        nfiles = rng.choice([0, 1, 1, 2, 3, 4])
        fs, pairs, items = [], [], []
        norm = {}
        for i in range(nfiles):
            fmt = "hepmc" if names and rng.random() < 0.9 else rng.choice(["hepmc", "lhef", "stripper"])
            n = rng.choice([0, 1, 1, 2, 3, 7, 20, 20, rng.choice([2, 150])])
            f = random_file(rng, fmt, n, (rng.sample(names, len(names)) if fmt == "hepmc" and names else None),
                            kind, name=rng.choice(["LO", "nlo x"]), maxparts=rng.choice([3, 6, 12]))
            how = rng.choice([None, None, "gzip", "bzip2", "zstd", "lz4"])
            if how and rng.random() < 0.15:
                how += "+"
            path = d / f"{k}_{i}.{rng.choice(['dat', EXT[fmt], EXT[fmt] + '.gz'])}"
            items.append((path, content(f), how))
            fs.append(f)
            pairs.append([str(path), str(d / f"{k}_{i}.out")])
        # cross sections such that scale factors are powers of two
        scale = {}
        for nm in {f["name"] for f in fs if f["fmt"] == "stripper"}:
            tot = sum(f["nevents"] for f in fs if f.get("name") == nm and f["fmt"] == "stripper")
            scale[nm] = rng.choice([0.25, 1.0, 2.0, 1024.0])
            if mode == "combined":
                path = d / f"{k}_{len(pairs)}.xml"
                items.append((path, normalization(nm, repr(scale[nm] * tot)).encode(), rng.choice([None, "gzip"])))
                pairs.insert(rng.randrange(len(pairs) + 1), [str(path), str(d / f"{k}_{len(pairs)}.out")])
            else:
                scale[nm] = 1.0
            if tot == 0:
                scale[nm] = 1.0
        files += items
        ask = rng.sample(names, rng.randrange(0, len(names) + 1)) if names else []
        if rng.random() < 0.03:
            ask = ask + ["unknown"]
        cases.append({"files": pairs, "names": ask, "mode": mode})
        meta.append((fs, scale, ask, kind))
    write_files(ctx, files)
    res = ctx.harness("read", cases, timeout=300)
    lines = []
    for (fs, scale, ask, kind), r in zip(meta, res):
        it = Intern()
        mev = kind == "dec"
        src = []
        for f in fs:
            src.append(source(f, it, scale.get(f.get("name"), 1.0), mev))
        err = failure(r)
        lines.append({"files": src, "names": [it(("name", x)) for x in ask], "err": err if r.get("err", "x") else "",
                      "crash": "ev" not in r, "got": [event_ids(it, e, mev) for e in r.get("ev", [])]})
    ctx.validate("ReadTrace", lines, what="readings", cases=sum(len(l["got"]) for l in lines))
