"""Runs of the tools that build partitions and classify events, recorded for ClassTrace."""
import copy
from concurrent.futures import ThreadPoolExecutor
from lib.e2e import *

FOOT = {"hepmc": "HepMC::IO_GenEvent-END_EVENT_LISTING", "lhef": "</LesHouchesEvents>", "stripper": "</Eventrecord>"}
START = {"hepmc": r"(?m)^E(?= )", "lhef": r"<event[ >]", "stripper": r"<se "}
END = {"hepmc": None, "lhef": "</event>", "stripper": "</se>"}


def raw_parts(fmt, data):
    """header, complete texts of the records, what comes after them, number of footers"""
    try:
        s = data.decode()
    except UnicodeDecodeError as e:
        raise BadFile(str(e))
    # text before the initialisation may look like events
    skip = s.find("</init>") + 7 if fmt == "lhef" else 0
    foot = s.rfind(FOOT[fmt])
    n = s.count(FOOT[fmt])
    if fmt == "hepmc" and foot > 0 and s[foot - 1] != "\n":
        raise BadFile("footer is not on a line of its own")
    body = s if foot < 0 else s[:foot]
    starts = [skip + m.start() for m in re.finditer(START[fmt], body[skip:])]
    head = body[:starts[0]] if starts else body
    recs = []
    for a, b in zip(starts, starts[1:] + [len(body)]):
        r = body[a:b]
        e = END[fmt]
        if e:
            i = r.find(e)
            if i < 0:
                raise BadFile("unclosed record")
            rest = r[i + len(e):].strip()
            if fmt == "stripper":
                rest = re.sub(r"\s*</?e>\s*", "", rest)
            if rest:
                raise BadFile(f"text between records: {rest[:80]}")
            r = r[:i + len(e)]
        recs.append(r)
    tail = "" if foot < 0 else s[foot:]
    if fmt == "stripper":
        # the first event tag belongs to the first record
        head = re.sub(r"\s*<e>\s*$", "", head.rstrip())
    return head.rstrip(), recs, tail.strip(), n


def projected_source(f, intern, exact):
    p = source_ints(f, intern, 1.0) if exact else source(f, intern)
    head, recs, _, _ = raw_parts(f["fmt"], content(f))
    assert len(recs) == len(p["recs"]), (f["fmt"], len(recs))
    for r, t in zip(p["recs"], recs):
        r["raw"] = intern(("raw", t))
    p["head"], p["foot"] = intern(("raw", head)), intern(("raw", FOOT[f["fmt"]]))
    return p


def exact_int(x):
    return as_int(str(x))


def events(rng, s, n, negatives, nw=1):
    """events with small integer weights and momenta"""
    bound = 150 if s.pho or s.tau[0] else 1000
    neg = set(rng.sample(range(n), min(n, negatives)))
    res = []
    for i in range(n):
        parts = [("out", t, p) for t, p in objects(rng, s, bound)]
        if rng.random() < 0.4:
            parts.insert(rng.randrange(len(parts) + 1), (rng.choice(["in", "mid"]), rng.choice(PIDS), (90, 90, 0, 0)))
        res.append({"w": [-rng.randrange(1, 9) if i in neg else rng.choice([0, 1, 2, 5])] + [rng.randrange(-9, 9) for _ in range(nw - 1)],
                    "parts": parts})
    return res


def float_events(rng, n, negatives, kind=None):
    """events with arbitrary momenta"""
    neg = set(rng.sample(range(n), min(n, negatives)))
    res = []
    mode = kind or rng.choice(["any", "coarse", "single"])
    for i in range(n):
        parts = []
        for _ in range(1 if mode == "single" else rng.choice([0, 1, 2, 2, 3, 4])):
            if mode == "coarse":
                p = [rng.choice([-60, -30.5, 40, 55.25, 120]) for _ in range(3)]
            else:
                p = [rng.gauss(0, 1) * 10 ** rng.uniform(1, 2.7) for _ in range(3)]
            e = (p[0] ** 2 + p[1] ** 2 + p[2] ** 2) ** 0.5
            parts.append(("out", rng.choice([1, 21, -3, 5, 11, 13, 22, 12, 25, 24]), tuple(rng.choice([repr(x), f"{x:.16e}"]) for x in [e, *p])))
        res.append({"w": [repr(-rng.uniform(0.1, 3) if i in neg else rng.uniform(0, 3))], "parts": parts})
    return res


class Files:
    """events distributed over files, without normalisation"""

    def __init__(self, d, rng, evs, key, nfiles, formats=None, plain=False):
        cuts = sorted(rng.randrange(len(evs) + 1) for _ in range(nfiles - 1))
        self.files, self.items, self.paths = [], [], []
        stem = rng.sample(["in", "a", "sample", "b-1", "ev_x", "7", "z z", ".hidden"], nfiles)
        for i, (a, b) in enumerate(zip([0] + cuts, cuts + [len(evs)])):
            chunk = copy.deepcopy(evs[a:b])
            for e in chunk:
                e["w"] = [x if isinstance(x, str) else int_token(rng, x) for x in e["w"]]
                e["parts"] = [(r, t, tuple(x if isinstance(x, str) else int_token(rng, x) for x in p)) for r, t, p in e["parts"]]
            fmt = rng.choice(formats or ["hepmc", "lhef", "stripper"])
            if fmt == "hepmc":
                f = hepmc_file(chunk, rng, None, unit=rng.choice(["GEV", None]), plain=plain)
            elif fmt == "lhef":
                f = lhef_file(chunk, rng, plain)
            else:
                f = stripper_file(chunk, rng, name=rng.choice(["LO", "nlo x"]), plain=plain)
            # the end of the file may be missing or have more around it
            if not plain and fmt != "lhef" and rng.random() < 0.1:
                f["foot"] = f["foot"].rstrip("\n") + rng.choice(["", "\n", "\n\n\n"])
            f["crlf"] = not plain and rng.random() < 0.06
            self.files.append(f)
            path = d / f"{key}{stem[i]}{rng.choice(SUFFIX[fmt])}"
            self.paths.append(path)
            self.items.append((path, content(f), rng.choice(PACK)))


class ToolRun:
    """cres-partition followed by cres-classify-events"""

    def __init__(self, ctx, rng, key, exact=None, n=None, nsample=None, formats=None, nclass=None, settings=None, cfiles=None, kind=None):
        self.dir = ctx.tmp(key)
        self.exact = rng.random() < 0.7 if exact is None else exact
        self.n = n if n is not None else rng.choice([1, 2, 2, 4, 4, 8])
        kw = dict(settings or {})
        if self.exact and rng.random() < 0.25:
            kw.setdefault("tau", [3, 4])
            kw.setdefault("ds", 4)
        elif not self.exact:
            kw.setdefault("tau", rng.choice([[0, 1], [0, 1], [1, 2], [13, 10]]))
        s = self.s = Settings(rng, **kw)
        if self.exact and s.tau[0]:
            s.pho = []
        s.strategy = s.search = s.limit = s.seed = None
        least = 0 if self.n == 0 else self.n + self.n // 2 - 1 if self.n > 1 else 1
        neg = nsample if nsample is not None else max(0, least + rng.choice([-2, -1, 0, 0, 1, 2, 3, 5, 9]))
        tot = neg + rng.randrange(0, 6)
        m = nclass if nclass is not None else rng.randrange(0, 9)
        if self.exact:
            ev, more = events(rng, s, tot, neg), events(rng, s, m, m // 2)
        else:
            k = kind or rng.choice(["any", "coarse", "single"])
            ev, more = float_events(rng, tot, neg, k), float_events(rng, m, m // 2, k)
        self.sfiles = Files(self.dir, rng, ev, "s", rng.choice([1, 1, 2, 3]), formats)
        # files to be split: with and without the events of the sample
        again_ = [copy.deepcopy(e) for e in rng.sample(ev, rng.randrange(len(ev) + 1))] + more
        rng.shuffle(again_)
        self.cfiles = Files(self.dir, rng, again_, "c", cfiles or rng.choice([1, 2, 3]), formats)
        self.part = self.dir / "part"
        self.outdir = self.dir / rng.choice(["out", "out/deep"])
        s.compression = rng.choice(COMPR_OPT)
        self.compression = rng.choice(COMPR_OPT)
        s.threads = rng.choice([1, 1, 2, 4])
        self.pargs = s.args(rng, [["-o", str(self.part)], ["--regions", str(self.n)]]) + [str(p) for p in self.sfiles.paths]
        self.cargs = ["-p", str(self.part), "-o", str(self.outdir)] + (["-c", self.compression] if self.compression else []) + [str(p) for p in self.cfiles.paths]

    def outputs(self):
        """paths of the output files"""
        res = []
        for p in self.cfiles.paths:
            pre, _, suf = p.name.partition(".")
            res.append([self.outdir / f"{pre}.{i}.{suf}" for i in range(self.n)])
        return res


def execute_tools(ctx, runs, jobs=8):
    for r in runs:
        # output names do not depend on the part before the first dot only
        assert len({p.name for p in r.cfiles.paths}) == len(r.cfiles.paths)
    write_files(ctx, [it for r in runs for it in r.sfiles.items + r.cfiles.items])

    def go(r):
        r.prc, r.plog = ctx.run([bin_path("cres-partition"), *r.pargs], timeout=60, cwd=r.dir)
        r.written = r.part.exists()
        r.crc, r.clog = -1, ""
        if r.prc == 0:
            r.crc, r.clog = ctx.run([bin_path("cres-classify-events"), *r.cargs], timeout=60, cwd=r.dir)

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(go, runs))
    done = [r for r in runs if r.prc == 0]
    cases = []
    for r in done:
        s = r.s
        c = {"partition": str(r.part), "files": [str(p) for p in r.sfiles.paths + r.cfiles.paths], "nu": s.nu,
             "jet": [ALGS[s.jet[0]], s.jet[1] / 1e4, s.jet[2] / 10], "tau": s.tau[0] / s.tau[1]}
        if s.lep:
            c["lep"] = [ALGS[s.lep[0]], s.lep[1] / 1e4, s.lep[2] / 10]
        if s.pho:
            c["pho"] = [s.pho[0] / s.pho[1], s.pho[2] / 1e4, s.pho[3] / 10]
        cases.append(c)
    for r, x in zip(done, ctx.harness("partfile", cases, timeout=300) if cases else []):
        r.info = x
    # outputs: decompressed, and read
    todo, where = [], []
    for r in done:
        r.raw = [[None] * r.n for _ in r.cfiles.paths]
        r.got = [[None] * r.n for _ in r.cfiles.paths]
        if r.crc != 0:
            continue
        for f, row in enumerate(r.outputs()):
            for i, o in enumerate(row):
                if o.exists():
                    where.append((r, f, i, o))
    for (r, f, i, o), q in zip(where, ctx.harness("decompress", [{"path": str(o), "as": algo_of(r.compression), "dst": str(o) + ".raw~"}
                                                                 for r, f, i, o in where], timeout=300) if where else []):
        if q.get("err", "?") == "" and q.get("rest") == 0:
            r.raw[f][i] = pathlib.Path(str(o) + ".raw~").read_bytes()
    res = ctx.harness("read", [{"files": [[str(o), str(o) + ".none"]], "names": [], "mode": "single"} for r, f, i, o in where],
                      timeout=300) if where else []
    for (r, f, i, o), q in zip(where, res):
        r.got[f][i] = q
    return runs


def recorded_tools(r):
    it = Intern()
    s = r.s
    ok = r.prc == 0
    conv = exact_int if r.exact else (lambda x: it(("num", repr(float(x) + 0.0))))
    line = {**s.spec(), "exact": r.exact, "n": r.n, "prc": -1 if r.prc is None else r.prc, "written": r.written,
            "crc": -1 if r.crc is None else r.crc,
            "sfiles": [projected_source(f, it, r.exact) for f in r.sfiles.files],
            "cfiles": [projected_source(f, it, r.exact) for f in r.cfiles.files],
            "neg": [float(e["w"][0]) < 0 for f in r.sfiles.files for e in f["events"]],
            "perr": "", "vp": [], "ranks": [], "couts": []}
    if not ok:
        return line
    line["perr"] = failure(r.info)
    if "err" in r.info and not r.info["err"]:
        line["perr"] = ""
        line["ranks"] = r.info["ranks"]
        line["vp"] = [{"objs": [[o[0], *(exact_int(x) for x in o[1:])] for o in v["objs"]] if r.exact else [],
                       "r": as_int(str(v["r"]), s.ds) if r.exact else 0, "pt": -1 if v["pt"] is None else v["pt"]}
                      for v in r.info["vp"]]
    for f, src in enumerate(r.cfiles.files):
        row = []
        for i in range(r.n):
            try:
                if r.raw[f][i] is None:
                    raise BadFile("missing")
                head, recs, tail, n = raw_parts(src["fmt"], r.raw[f][i])
                q = r.got[f][i]
                row.append([{"head": it(("raw", head)), "foot": it(("raw", tail)), "footers": n,
                             "recs": [it(("raw", t)) for t in recs], "err": failure(q) if q.get("err", "x") else "",
                             "got": [{"w": [conv(e["w"][0])], "out": [[int(p[0]), *(conv(x) for x in p[1:])] for p in e["out"]]}
                                     for e in q.get("ev", [])]}])
            except BadFile:
                row.append([])
        line["couts"].append(row)
    return line


def check_tools(ctx, runs, cfg, what):
    execute_tools(ctx, runs)
    ctx.validate("ClassTrace", [recorded_tools(r) for r in runs], what=what, cfg=cfg, timeout=800,
                 describe=lambda i: {"partition": runs[i].pargs, "log": runs[i].plog[-500:],
                                     "classify": runs[i].cargs, "clog": runs[i].clog[-500:]})
