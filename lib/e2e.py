"""Complete runs of the programs, recorded for RunTrace.

Samples have integer momenta along one axis and integer weights that stay integer
when they are averaged, so that the specification predicts the outcome exactly."""
from math import lcm
from lib.common import *
from lib.nets import *
from lib.samples import *

UNLIMITED = 2000000000
BAD = 2000000011  # not a number, or not an integer
ALGS = {"antikt": "anti-kt", "kt": "kt", "ca": "Cambridge-Aachen"}
COMPR_OPT = [None, None, "gzip", "gzip_9", "gzip_0", "bzip2", "zstd", "zstd_3", "lz4", "lz4_5", "GZ_1", "Zstandard"]
SUFFIX = {"hepmc": [".hepmc", ".hepmc2", ".dat", ".hepmc.gz", "", ".x.y"], "lhef": [".lhe", ".lhef", ".txt", ".lhe.zst"],
          "stripper": [".xml", ".stripper", ".xml.bz2"]}
PACK = [None, None, None, None, None, None, "gzip", "bzip2", "zstd", "lz4"] * 4 + ["gzip+", "bzip2+", "zstd+", "lz4+"]


def algo_of(opt):
    """(harness name of the) compression that an option selects"""
    if opt is None:
        return "none"
    a = opt.split("_")[0].lower()
    return {"gz": "gzip", "bz2": "bzip2", "zstandard": "zstd"}.get(a, a)


# ------------------------------------------------------------------ settings
class Settings:
    """settings of a run, for the command line and for the specification"""

    def __init__(self, rng=None, **kw):
        self.jet = ["antikt", 4000, 305]
        self.lep, self.pho, self.nu = [], [], False
        self.tau, self.ds, self.limit = [0, 1], 1, None
        self.strategy, self.m, self.os, self.seed = None, 0, 1, None
        self.names, self.search, self.compression, self.threads = [], None, None, 1
        if rng:
            self.jet = [rng.choice(list(ALGS)), rng.choice([1000, 4000, 10000]), rng.choice([105, 305, 605])]
            if rng.random() < 0.4:
                self.lep = [rng.choice(list(ALGS)), rng.choice([1000, 2000]), rng.choice([55, 205])]
            if rng.random() < 0.4:
                self.pho = [rng.randrange(1, 80), 97, rng.choice([1000, 3000]), rng.choice([155, 405])]
            self.nu = rng.random() < 0.5
            self.strategy = rng.choice([None, "any", "most_negative", "least_negative", "Any", "MostNegative", "LeastNegative"])
            self.search = rng.choice([None, "tree", "naive"])
            if rng.random() < 0.4:
                self.limit = rng.choice([0, 50, 200, 400, 800, 1500])
        self.__dict__.update(kw)

    def spec(self):
        st = {None: "most_negative", "Any": "any", "MostNegative": "most_negative", "LeastNegative": "least_negative"}
        return {"jet": self.jet, "lep": self.lep, "pho": self.pho, "nu": self.nu, "tau": self.tau, "ds": self.ds,
                "limit": UNLIMITED if self.limit is None else self.limit, "strategy": st.get(self.strategy, self.strategy),
                "m": self.m, "os": self.os}

    def args(self, rng=None, prefix=()):
        """as command-line arguments, in any order"""
        a = list(prefix)
        a += [["-a", ALGS[self.jet[0]]], ["-R", repr(self.jet[1] / 1e4)], ["-p", repr(self.jet[2] / 10)]]
        if self.lep:
            a += [["--leptonalgorithm", ALGS[self.lep[0]]], ["--leptonradius", repr(self.lep[1] / 1e4)],
                  ["--leptonpt", repr(self.lep[2] / 10)]]
        if self.pho:
            a += [["--photonefrac", repr(self.pho[0] / self.pho[1])], ["--photonradius", repr(self.pho[2] / 1e4)],
                  ["--photonpt", repr(self.pho[3] / 10)]]
        if self.nu:
            a += [["--include-neutrinos"]]
        if self.tau[0]:
            a += [["--ptweight", repr(self.tau[0] / self.tau[1])]]
        if self.limit is not None:
            a += [["--max-cell-size", repr((self.limit + 0.5) / self.ds)]]
        if self.strategy:
            a += [["--strategy", self.strategy]]
        if self.search:
            a += [["-s", self.search]]
        if self.m:
            a += [["-w", repr(self.m)]]
        if self.seed is not None:
            a += [["--seed", str(self.seed)]]
        if self.names:
            a += [["--weights", ",".join(self.names)]]
        if self.compression:
            a += [["--compression", self.compression]]
        if self.threads is not None:
            a += [["-t", str(self.threads)]]
        if rng:
            rng.shuffle(a)
        return [x for y in a for x in y]


# ------------------------------------------------------------------- samples
def lcm_to(n):
    return lcm(*range(1, n + 1)) if n > 0 else 1


def weights(rng, n, nw, negatives, small=False, generic=False):
    """central and further weights, multiples of lcm(1..n)^negatives; generic: no sum of averages vanishes"""
    if not small and n > 10:
        # large positive weights, so that cells have at most six members
        u, ws = 60 ** negatives, []
        neg = set(rng.sample(range(n), negatives))
        for i in range(n):
            c = -rng.randrange(1, 4) if i in neg else rng.randrange(500, 2000)
            ws.append([u * c] + [u * rng.randrange(-50, 50) for _ in range(nw - 1)])
        return ws
    unit = 1 if small else lcm_to(n) ** negatives
    p = next(q for q in (5, 7, 11, 13, 17, 19, 23, 29, 31, 37) if q > n)
    top = max(2, min(40 if negatives else 12, 2_000_000_000 // (unit * max(n, 1) * (p if generic else 1) * 2)))
    ws = []
    neg = set(rng.sample(range(n), negatives)) if n else set()
    for i in range(n):
        if generic:
            c = 1 + p * rng.randrange(0, top)
            c = 1 - p * rng.randrange(1, top + 1) if i in neg else c
            assert c % p == 1 and (c < 0) == (i in neg)
        else:
            c = -rng.randrange(1, top + 1) if i in neg else rng.randrange(0 if rng.random() < 0.2 else 1, top + 1)
        ws.append([unit * c] + [unit * rng.randrange(-top, top + 1) for _ in range(nw - 1)])
    return ws


def momentum_x(rng, pt):
    x = pt if rng.random() < 0.6 else -pt
    return (abs(x), x, 0, 0)


def objects(rng, s, bound):
    """outgoing particles of one event"""
    k = rng.random()
    n = 0 if k < 0.12 else rng.choice([1, 1, 2, 2, 3])
    parts = []
    pt = lambda: rng.randrange(s.jet[2] // 10 + 1, bound)
    for _ in range(n):
        t = rng.choice(["jet", "jet", "jet", "lepton", "photon", "other", "nu"])
        if t == "jet":
            for _ in range(rng.choice([1, 1, 2])):
                parts.append((rng.choice([1, -2, 3, 4, 5, 21, 211, 2212, -130]), momentum_x(rng, pt())))
        elif t == "lepton":
            parts.append((rng.choice([11, -11, 13, -13]), momentum_x(rng, pt())))
        elif t == "photon":
            parts.append((22, momentum_x(rng, pt())))
        elif t == "nu":
            parts.append((rng.choice([12, -14, 16]), momentum_x(rng, pt())))
        else:
            parts.append((rng.choice([23, -24, 25, 6, 1000022, 15]), momentum_x(rng, pt())))
    if rng.random() < 0.3:  # too soft
        parts.append((rng.choice([1, 21, 211]), momentum_x(rng, rng.randrange(1, s.jet[2] // 10 + 1))))
    if s.tau[0]:
        parts = [(t, (p[0], p[0], 0, 0)) for t, p in parts]
    # isolation must not depend on rounding
    if s.pho:
        for t, p in parts:
            if t == 22:
                e = sum(q[0] for _, q in parts) - p[0]
                if p[0] * s.pho[1] == e * s.pho[0]:
                    return objects(rng, s, bound)
    rng.shuffle(parts)
    return parts


def nothing(rng, s, nw):
    """an event without identified particles, of any weight"""
    parts = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        t = rng.choice(["soft", "in", "nu"])
        if t == "soft":
            x = rng.randrange(1, s.jet[2] // 10 + 1)
            # not both on the same side
            if not any(q[0] == "out" for q in parts):
                parts.append(("out", rng.choice([1, 21, 211]), momentum_x(rng, x)))
        elif t == "in" or s.nu:
            parts.append((rng.choice(["in", "mid"]), rng.choice(PIDS), momentum_x(rng, rng.randrange(1, 500))))
        else:
            parts.append(("out", rng.choice([12, -14, 16]), momentum_x(rng, rng.randrange(1, 500))))
    return {"w": [rng.choice([-1, 1]) * rng.randrange(1, 10 ** 6) for _ in range(nw)], "parts": parts}


def sample(rng, s, n, negatives, nw=1, small=False, generic=False, empty=True):
    """events with integer weights and momenta"""
    bound = 150 if s.pho or s.tau[0] else 1000
    ws = weights(rng, n, nw, negatives, small, generic)
    res = []
    for w in ws:
        ps = objects(rng, s, bound)
        while not empty and not ps:
            ps = objects(rng, s, bound)
        parts = [("out", t, p) for t, p in ps]
        for _ in range(rng.choice([0, 0, 1, 2])):
            x = rng.randrange(-300, 300)
            parts.insert(rng.randrange(len(parts) + 1),
                         (rng.choice(["in", "mid"]), rng.choice(PIDS), (abs(x), x, 0, 0)))
        res.append({"w": w, "parts": parts})
    return res


def number_text(rng, x):
    """a fraction as a decimal number"""
    v = x[0] / x[1]
    return rng.choice([repr(v), f"{v:.17e}"])


def int_token(rng, x):
    r = rng.random()
    if r < 0.6 or abs(x) >= 10 ** 15:
        return str(x)
    if r < 0.8:
        return f"{x}.0"
    return f"{x:.16e}".replace("e", rng.choice("eE"))


class Layout:
    """a sample, distributed over files. cols: names of the weights in the files (HepMC);
    rest: number of additional weights"""

    def __init__(self, d, rng, events, key="in", formats=None, names=None, nfiles=None, plain=False, scales=None,
                 contributions=("LO", "nlo x"), suffixes=True, missing=()):
        self.missing = set(missing)
        self.files, self.items, self.infiles = [], [], []
        self.dir = d
        formats = ["hepmc"] if names else formats or ["hepmc", "lhef", "stripper"]
        nfiles = nfiles if nfiles is not None else rng.choice([1, 2, 2, 3, 4])
        cuts = sorted(rng.randrange(len(events) + 1) for _ in range(nfiles - 1))
        chunks = [events[a:b] for a, b in zip([0] + cuts, cuts + [len(events)])]
        fmts = [rng.choice(formats) for _ in chunks]
        cname = [rng.choice(contributions) if f == "stripper" else None for f in fmts]
        self.scale = {c: rng.choice(scales or [0.25, 0.5, 1.0, 2.0, 4.0]) for c in sorted({c for c in cname if c})}
        nevents = [len(x) + rng.choice([0, 0, 1, 7]) if f == "stripper" else 0 for x, f in zip(chunks, fmts)]
        self.xs = {}
        for c in self.scale:
            tot = sum(n for n, x in zip(nevents, cname) if x == c)
            if not tot:
                self.scale[c] = 1.0
                self.xs[c] = [1, 1]
            elif self.scale[c] is None:
                # any cross section
                x = [rng.randrange(1, 10 ** 5), rng.choice([1, 10, 1000])]
                self.xs[c] = x
                self.scale[c] = x[0] / x[1] / tot
            else:
                self.xs[c] = [round(4 * self.scale[c]) * tot, 4]
        for i, (chunk, fmt, c) in enumerate(zip(chunks, fmts, cname)):
            evs = []
            extra = [x for x in NAMES if x not in (names or [])][:rng.randrange(3)]
            orders = []
            mixed = bool(missing) or rng.random() < 0.5
            mev = fmt == "hepmc" and rng.random() < 0.3
            for e in chunk:
                sc = self.scale.get(c, 1.0)
                toks = [int_token(rng, e["w"][0]) if sc == 1.0 else repr(e["w"][0] / sc)]
                if names:
                    if mixed or not orders:
                        # the first column is the central weight, whatever its name
                        tail = [x for x in names if (x, len(orders)) not in self.missing] + extra
                        rng.shuffle(tail)
                        cols = [rng.choice(["central", "0"] if "0" not in tail else ["central"])] + tail
                    else:
                        cols = orders[-1]
                    orders.append(cols)
                    val = dict(zip(names, e["w"][1:]))
                    toks += [int_token(rng, val[x]) if x in val else token(rng, "exp") for x in cols[1:]]
                elif fmt == "hepmc" and rng.random() < 0.3:
                    toks += [token(rng, "exp") for _ in range(2)]
                f = 1000 if mev else 1
                evs.append({"w": toks, "parts": [(r, t, tuple(int_token(rng, f * x) for x in p)) for r, t, p in e["parts"]]})
            if fmt == "hepmc":
                f = hepmc_file(evs, rng, orders if names else None, unit="MEV" if mev else rng.choice(["GEV", None]), plain=plain)
            elif fmt == "lhef":
                f = lhef_file(evs, rng, plain)
            else:
                f = stripper_file(evs, rng, name=c, plain=plain, nevents=nevents[i])
            f["crlf"] = not plain and rng.random() < 0.06
            self.files.append(f)
        # cross sections and factors: [numerator, denominator]
        total = {}
        for f in self.files:
            if f["fmt"] == "stripper":
                total[f["name"]] = total.get(f["name"], 0) + f["nevents"]
        for i, f in enumerate(self.files):
            # names in any order, in several directories
            where = d / rng.choice(["z", "a", "m"]) if not plain and rng.random() < 0.2 else d
            where.mkdir(exist_ok=True)
            front = rng.choice("azkq") if not plain and rng.random() < 0.7 else ""
            path = where / f"{front}{key}{i}{rng.choice(SUFFIX[f['fmt']]) if suffixes else '.' + EXT[f['fmt']]}"
            self.items.append((path, content(f), rng.choice(PACK)))
            self.infiles.append(path)
        self.real = list(self.infiles)
        self.norms = []
        for c, t in total.items():
            path = d / f"{key}norm{len(self.norms)}.xml"
            xs = number_text(rng, self.xs[c])
            self.items.append((path, normalization(c, xs, rng.choice(["Pos", "Neg"]), rng.choice([None, "title"])).encode(),
                               rng.choice([None, None, "gzip"])))
            self.norms.append((c, path))
            self.infiles.insert(rng.randrange(len(self.infiles) + 1), path)

    def scaleof(self, f):
        return self.scale.get(f.get("name"), 1.0)


def as_int(tok, scale=1.0):
    try:
        x = float(tok) * scale
    except ValueError:
        return BAD
    if not abs(x) < 2e9:
        return BAD
    r = round(x)
    return r if abs(x - r) <= 1e-9 * max(1.0, abs(x)) else BAD


def as_fixed(tok, scale):
    try:
        x = float(tok) * scale
    except ValueError:
        return BAD
    return round(x) if abs(x) < 2e9 else BAD


def with_ints(p, parsed, conv):
    for r, q in zip(p["recs"], parsed["recs"]):
        r["v"] = [conv(t) for t in q["w"]]
    return p


def source_ints(f, intern, scale):
    """projection of an input file: weights and momenta as integers"""
    parsed = parse(f["fmt"], content(f))
    p = with_ints(projected(f["fmt"], parsed, intern), parsed, lambda t: as_int(t, scale))
    assert len(p["recs"]) == len(f["events"])
    for r, e in zip(p["recs"], f["events"]):
        u = 1e-3 if f.get("unit") == "MEV" else 1
        r["parts"] = [[st, pid, *(as_int(x, u) for x in q)] for st, (_, pid, q) in zip(e.get("st", []), e["parts"])]
    return p


def output_ints(fmt, raw, intern, scale, os, exact):
    parsed = parse(fmt, raw)
    conv = (lambda t: as_int(t, scale)) if exact else (lambda t: as_fixed(t, scale * os))
    return with_ints(projected(fmt, parsed, intern), parsed, conv)


class Run:
    """one run of cres, to be executed and recorded"""

    def __init__(self, layout, settings, args, outdir, timeout=60):
        self.layout, self.settings, self.outdir, self.argv = layout, settings, outdir, args
        self.rc, self.log, self.raw, self.timeout = None, "", [], timeout


def execute(ctx, runs, exe=None, jobs=8):
    """run the programs and collect their (decompressed) outputs"""
    from concurrent.futures import ThreadPoolExecutor
    write_files(ctx, [it for lay in {id(r.layout): r.layout for r in runs}.values() for it in lay.items])
    exe = exe or bin_path("cres")
    for r in runs:
        r.before = [p.read_bytes() for p in r.layout.infiles]

    def go(r):
        r.rc, r.log = ctx.run([exe, *r.argv], timeout=r.timeout, cwd=r.layout.dir)

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(go, runs))
    todo, where = [], []
    for k, r in enumerate(runs):
        r.raw = [None] * len(r.layout.real)
        r.unchanged = [p.read_bytes() for p in r.layout.infiles] == r.before
        r.listed = sorted(p.name for p in r.outdir.iterdir()) if r.outdir.is_dir() else []
        for i, p in enumerate(r.layout.real):
            o = r.outdir / p.name
            if o.exists():
                todo.append({"path": str(o), "as": algo_of(r.settings.compression), "dst": str(o) + ".raw~"})
                where.append((k, i))
    for (k, i), c, q in zip(where, todo, ctx.harness("decompress", todo, timeout=300) if todo else []):
        if q.get("err", "?") == "" and q.get("rest") == 0:
            runs[k].raw[i] = pathlib.Path(c["dst"]).read_bytes()
            os.unlink(c["dst"])
    return runs


def recorded(run, it=None):
    """line for RunTrace"""
    it = it or Intern()
    s, lay = run.settings, run.layout
    outs = []
    for f, raw in zip(lay.files, run.raw):
        sc = lay.scaleof(f)
        try:
            if raw is None:
                raise BadFile("missing")
            p = output_ints(f["fmt"], raw, it, sc, s.os, s.m == 0)
            for r, q in zip(p["recs"], parse(f["fmt"], raw)["recs"]):
                r["x"] = [it(("num", number(t, sc))) for t in q["w"]]
            outs.append([p])
        except (BadFile, ValueError):
            outs.append([])
    files = [source_ints(f, it, lay.scaleof(f)) for f in lay.files]
    for p, f in zip(files, lay.files):
        if f["fmt"] == "stripper":
            tot = sum(g["nevents"] for g in lay.files if g.get("name") == f["name"])
            x = lay.xs[f["name"]]
            p.update(contribution=it(("name", f["name"])), nevents=f["nevents"],
                     factor=[x[0], x[1] * tot] if tot else [1, 1])
    return {**s.spec(), "files": files, "outs": outs,
            "norms": [{"contribution": it(("name", c)), "xs": lay.xs[c]} for c, path in lay.norms if path in lay.infiles],
            "names": [it(("name", x)) for x in s.names], "rc": -1 if run.rc is None else run.rc,
            "intact": run.unchanged, "inames": [it(("file", p.name)) for p in lay.real],
            "onames": [it(("file", n)) for n in run.listed]}


def recorded_pair(a, b):
    it = Intern()
    return [recorded(a, it), recorded(b, it)]


def check_runs(ctx, runs, what):
    execute(ctx, runs)
    ctx.validate("RunTrace", [recorded(r) for r in runs], what=what, timeout=800,
                 describe=lambda i: {"argv": runs[i].argv, "log": runs[i].log[-500:]})


def check_pairs(ctx, pairs, what):
    """pairs of executed runs"""
    ctx.validate("PairTrace", [recorded_pair(a, b) for a, b in pairs], what=what, timeout=800,
                 describe=lambda i: {"argv": [r.argv for r in pairs[i]], "log": [r.log[-500:] for r in pairs[i]]})


def again(ctx, run, rng, sub, events=None, settings=None, **layout):
    """another run for the same events, distributed anew over files, or for other events"""
    import copy
    d = ctx.tmp(sub)
    s = copy.copy(run.settings)
    s.__dict__.update(settings or {})
    lay = Layout(d, rng, events if events is not None else run.events, names=run.cols, **layout)
    out = d / "out"
    return Run(lay, s, s.args(rng, [["-o", str(out)]]) + [str(p) for p in lay.infiles], out)


def simple_runs(ctx, rng, n, key="r", names=False, unweight=False, formats=None, settings=None, nfiles=None,
                sizes=(1, 2, 3, 4, 5, 6, 8), empty=True, scales=None, missing=0, many=False, **layout):
    """random runs, with nothing special about them"""
    runs = []
    for k in range(n):
        d = ctx.tmp(f"{key}{k}")
        kw = dict(settings or {})
        if rng.random() < 0.15 and not unweight:
            kw.setdefault("tau", [3, 4])
            kw.setdefault("ds", 4)
        s = Settings(rng, **kw)
        if s.tau[0]:
            s.pho = []
        ask = rng.sample(NAMES, rng.randrange(1, 4)) if names and rng.random() < 0.9 else []
        if many:
            ask = rng.sample(MANY, rng.randrange(1, len(MANY) + 1))
        cols = ask + [x for x in NAMES if x not in ask][:rng.randrange(2)] if names else None
        ev_n = rng.choice(sizes)
        kmax = {1: 1, 2: 2, 3: 3, 4: 3, 5: 2, 6: 2, 7: 2, 8: 2, 9: 2, 10: 2}.get(ev_n, 3)
        small = False
        if unweight:
            if rng.random() < 0.5:
                s.limit, small, neg, ev_n = -1, True, 0, rng.choice([2, 5, 10, 20])
                neg = 0
            else:
                ev_n = rng.choice([1, 2, 3, 4, 5])
                neg = min(1, ev_n)
        else:
            neg = rng.randrange(0, min(kmax, ev_n) + 1)
        s.names = list(ask)
        ev = sample(rng, s, ev_n, neg, 1 + len(cols or []), small=small, generic=rng.random() < 0.5 or bool(scales), empty=empty)
        if unweight:
            if s.limit == -1:
                s.limit = None
            top = max(abs(x) for e in ev for x in e["w"][:1 + len(ask)]) or 1
            s.m = rng.randrange(1, max(2, max(abs(e["w"][0]) for e in ev) + 2))
            tot = sum(abs(e["w"][0]) for e in ev) or 1
            s.os = max(1, min(1000, 1_900_000_000 // (top * s.m * tot * len(ev))))
            s.seed = rng.choice([None, 0, 1, rng.randrange(2 ** 63)])
            if top * s.m * tot * len(ev) > 1_900_000_000:
                s.m, s.os = 1, 1
        s.compression = rng.choice(COMPR_OPT)
        gone = ()
        if ask and rng.random() < missing:
            gone = [(rng.choice(ask), rng.randrange(ev_n))]
        lay = Layout(d, rng, ev, formats=formats, names=cols, nfiles=nfiles, scales=scales, missing=gone, **layout)
        out = d / "out"
        argv = s.args(rng, [["-o", str(out)], ["-l", rng.choice(["off", "info", "trace"])]] if rng.random() < 0.5 else [["--outdir", str(out)]])
        r = Run(lay, s, argv + [str(p) for p in lay.infiles], out)
        r.events, r.cols = ev, cols
        runs.append(r)
    return runs
