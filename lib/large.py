"""Large samples with a known outcome (Large, LargeTrace)."""
import random
from lib.common import *
from lib.formats import *


def sample(rng, npairs, nlone):
    """events (identity, weight, momentum): pairs of neighbours with weights
    -k and 3k, which become k each, and single events of weight k far away from the others"""
    ev = []
    for k in range(1, npairs + 1):
        x = 40 + 10 * k
        ev += [(k, -k, x), (k, 3 * k, x + rng.choice([-2, -1, 1, 2]))]
    ev += [(npairs + k, npairs + k, 40 + 10 * (npairs + k)) for k in range(1, nlone + 1)]
    rng.shuffle(ev)
    return ev


def files(ctx, rng, d, ev):
    """distribute the events over files of different formats; returns the paths"""
    cuts = sorted(rng.sample(range(1, len(ev)), 3))
    res = []
    for k, (a, b) in enumerate(zip([0] + cuts, cuts + [len(ev)])):
        fmt = rng.choice(["hepmc", "lhef"])
        out = []
        if fmt == "hepmc":
            out.append("HepMC::Version 2.06.09\nHepMC::IO_GenEvent-START_EVENT_LISTING\n")
            for i, (_, w, x) in enumerate(ev[a:b]):
                out.append(f"E {i} -1 1 0.1 0.007 1 -1 1 1 2 0 1 {w}\nU GEV MM\nV -1 0 0 0 0 0 0 1 0\nP 1 21 {x} 0 0 {x} 0 1 0 0 0 0\n")
            out.append("HepMC::IO_GenEvent-END_EVENT_LISTING\n")
        else:
            out.append('<LesHouchesEvents version="1.0">\n<init>\n2212 2212 6500 6500 0 0 0 0 3 0\n</init>')
            for _, w, x in ev[a:b]:
                out.append(f"\n<event>\n1 1 {w} 1 1 1\n21 1 0 0 0 0 {x} 0 0 {x} 0 0 9\n</event>")
            out.append("\n</LesHouchesEvents>\n")
        p = d / f"{k}.{fmt}"
        p.write_text("".join(out))
        res.append(p)
    return res


def output_weights(paths):
    res = []
    for p in paths:
        if not p.exists():
            continue
        lines = p.read_text(errors="replace").split("\n")
        for i, s in enumerate(lines):
            if s.startswith("E "):
                res.append(s.split()[-1])
            elif s.startswith("<event"):
                res.append(lines[i + 1].split()[2])
    return res


def large_runs(ctx, rng, sizes, what):
    lines = []
    for n, (npairs, nlone) in enumerate(sizes):
        d = ctx.tmp(f"large{n}")
        ev = sample(rng, npairs, nlone)
        paths = files(ctx, rng, d, ev)
        threads = rng.choice([1, 2, 8])
        rc, log = ctx.run([bin_path("cres"), "-o", d / "out", "-a", "anti-kt", "-R", "0.4", "-p", "30", "-l", "error",
                           "-t", threads, "-s", "tree", "--max-cell-size", rng.choice(["3", "2"]), *paths], timeout=400)
        got = output_weights([d / "out" / p.name for p in paths])

        def val(x):
            try:
                return int(float(x)) if float(x).is_integer() and abs(float(x)) < 1e9 else -999999999
            except ValueError:
                return -999999999
        got = [val(x) for x in got]
        size = 2000
        for a in range(0, max(len(ev), len(got)), size):
            lines.append({"rc": -1 if rc is None else rc, "size": len(ev), "written": len(got),
                          "ids": [e[0] for e in ev[a:a + size]], "w0": [e[1] for e in ev[a:a + size]],
                          "w": got[a:a + size]})
    ctx.validate("LargeTrace", lines, what=what, cases=len(sizes), describe=lambda i: f"chunk {i} rc {lines[i]['rc']}")
