"""C25: event I/O objects behave consistently under any call sequence (EventIO, CombinedIO, IoGen, IoTrace)."""
from lib.common import *
from lib.nets import *
from lib.sets import *
from checks.c09 import event_ids


def result(intern, r):
    """projection of the result of one operation"""
    if r == "none" or r == "ok" or r == "true" or r == "false":
        return [r]
    if "ev" in r:
        return ["ev", event_ids(intern, r["ev"], False)]
    if "lo" in r:
        return ["hint", ival(r["lo"]), ival(r["hi"])]
    if "n" in r:
        return ["n", ival(r["n"])]
    return [str(r)]


def outputs(ctx, sets, compr):
    """the decompressed output files"""
    todo = []
    for s, c in zip(sets, compr):
        for _, out in s.real:
            if pathlib.Path(out).exists():
                todo.append({"path": out, "as": c[0] if c else "none", "dst": out + ".raw"})
    res = iter(ctx.harness("decompress", todo))
    outs = []
    for s in sets:
        fs = []
        for _, out in s.real:
            r = next(res) if pathlib.Path(out).exists() else {"err": "missing"}
            ok = r.get("err", "?") == "" and r["rest"] == 0
            fs.append(pathlib.Path(out + ".raw").read_bytes() if ok else None)
        outs.append(fs)
    return outs


def projected_outputs(intern, s, raws):
    res = []
    for f, raw in zip(s.files, raws):
        try:
            res.append([projected(f["fmt"], raw, intern, s.scaleof(f))] if raw is not None else [])
        except BadFile:
            res.append([])
    return res


def history_line(s, c, r, o):
    """line for IoTrace"""
    it = Intern()
    num = lambda w: [it(("num", number(x))) for x in w]
    return {"files": s.sources(it), "names": [it(("name", x)) for x in c["names"]],
            "err": r.get("open", "") or failure(r),
            # an object for a single file finishes its output on request
            "single": c.get("mode") == "fileio",
            "ops": [[op[0]] if len(op) == 1 else [op[0], num(op[1])] if op[0] == "upd" else ["all", [num(w) for w in op[1]]]
                    for op in c["ops"]],
            "res": [result(it, x) for x in r.get("res", [])],
            "outs": projected_outputs(it, s, o)}


def run(ctx):
    build(bins=False)
    rng = ctx.rng
    ctx.model("CombinedIO", "CombinedIO_ok7")
    for r in ("hint", "stop", "first", "open"):
        ctx.negative_control("CombinedIO", f"CombinedIO_{r}")
    hists = [json.loads(x) for x in ctx.tlc("IoGen", "IoGen_4" if ctx.quick else "IoGen_5", count=False).prints("CASE ")]
    if ctx.quick:
        hists = [h for h in hists if len(h) < 3] + rng.sample(hists, 700)
    else:
        hists = [h for h in hists if len(h) < 5] + rng.sample(hists, 4000)
    kinds = ["next", "rewind", "hint", "upd", "all", "short"]
    for k in range(500 if ctx.quick else 4000):
        p = [rng.random() + 0.02 for _ in kinds]
        p[1] *= 0.3
        p[4] *= 0.2
        p[5] *= 0.2
        h = []
        for _ in range(rng.randrange(5, 40)):
            x = rng.choices(kinds, p)[0]
            if h and h[-1] == "short" and x in ("next", "hint", "upd"):
                x = "rewind"
            h.append(x)
        hists.append(h)

    d = ctx.tmp("io")
    sets, cases, files, compr = [], [], [], []
    for k, h in enumerate(hists):
        nfiles = rng.choice([0, 1, 1, 2, 2, 3, 3])
        names = rng.sample(NAMES, rng.randrange(1, 4)) if rng.random() < 0.35 else None
        s = FileSet(ctx, d, rng, k, nfiles, sizes=[rng.choice([0, 0, 1, 1, 2, 3, 4]) for _ in range(nfiles)], names=names,
                    maxparts=3)
        ask = rng.sample(names, rng.randrange(len(names) + 1)) if names else []
        if h and rng.random() < 0.6:
            # end with a complete update
            h = h + (["all"] if rng.random() < 0.5 else ["rewind"] + ["upd"] * (s.n + 1))
            if rng.random() < 0.3:
                h = h + [rng.choice(["hint", "rewind"])]
        ops = []
        # as text, to be read back exactly
        w = lambda: [] if rng.random() < 0.15 else [repr(random_weight(rng)) for _ in range(1 + len(ask))]
        for x in h:
            if x == "upd":
                ops.append([x, w()])
            elif x == "all":
                ops.append([x, [w() for _ in range(s.n + rng.choice([0, 0, 0, 2]))]])
            elif x == "short":
                ops.append(["all", [w() for _ in range(rng.randrange(s.n) if s.n else 0)]])
            else:
                ops.append([x])
        sets.append(s)
        files += s.items
        c = rng.choice(COMPR)
        compr.append(c)
        cases.append({"files": s.pairs, "names": ask, "compression": c, "ops": ops})
    # objects for single files: any reading, followed by at most one complete update
    for k in range(500 if ctx.quick else 3000):
        mode = rng.choice(["reader", "fileio"])
        names = rng.sample(NAMES, rng.randrange(1, 4)) if rng.random() < 0.35 else None
        s = FileSet(ctx, d, rng, f"s{k}", 1, sizes=[rng.choice([0, 1, 2, 3, 4])], names=names, maxparts=3,
                    formats=["hepmc", "lhef"] + (["stripper"] * 2 if mode == "reader" else []))
        s.scale = {x: 1.0 for x in s.scale}
        s.pairs = s.real
        ask = rng.sample(names, rng.randrange(len(names) + 1)) if names else []
        ops = [[rng.choice(["next", "next", "hint", "rewind"])] for _ in range(rng.randrange(12))]
        w = lambda: [] if rng.random() < 0.15 else [repr(random_weight(rng)) for _ in range(1 + len(ask))]
        if mode == "fileio":
            if rng.random() < 0.5:
                ops.append(["all", [w() for _ in range(s.n + rng.choice([0, 2]))]])
            else:
                ops += [["rewind"]] + [["upd", w()] for _ in range(s.n + 1)] + [["fin"]]
        sets.append(s)
        files += s.items[:1]
        compr.append(rng.choice(COMPR) if mode == "fileio" else None)
        cases.append({"files": s.real, "names": ask, "compression": compr[-1], "ops": ops, "mode": mode})
    write_files(ctx, files)
    res = ctx.harness("io", cases, timeout=300)
    outs = outputs(ctx, sets, compr)
    lines = [history_line(s, c, r, o) for s, c, r, o in zip(sets, cases, res, outs)]
    ctx.validate("IoTrace", lines, what="histories", timeout=800)
