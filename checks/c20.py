"""C20: the C interface (Capi, CapiModel, CapiTrace, Run, CapiRunTrace)."""
from lib.common import *
from lib.e2e import *

TAB = "\t"


def command(*x):
    return TAB.join(str(y) for y in x)


def run_command(th, s, outdir, infiles, custom="", factor=1):
    limit = "inf" if s.limit is None else repr((s.limit + 0.5) / s.ds)
    return command("run", th, outdir, custom or "none", factor, repr(s.tau[0] / s.tau[1]), s.jet[0], repr(s.jet[1] / 1e4), repr(s.jet[2] / 10),
                   s.search or "tree", limit, *infiles)


def shell(driver, d, cmds, threads=2):
    """arguments for a shell that runs the driver with these commands"""
    (d / "cmds").write_text("".join(c + "\n" for c in cmds))
    return ["-c", f"RAYON_NUM_THREADS={threads} CRESH_LOGGER=off '{driver}' '{d}/res' < '{d}/cmds'"]


def results(d):
    p = d / "res"
    return [json.loads(x) for x in p.read_text(errors="replace").splitlines()] if p.exists() else []


# -------------------------------------------------------------------- runs
def resampling(ctx, rng, driver, n):
    runs = []
    for k in range(n):
        d = ctx.tmp(f"r{k}")
        custom = rng.choice(["", "", "id", "inv", "px", "px"])
        kw = {"lep": [], "pho": [], "nu": False, "strategy": None}
        if not custom and rng.random() < 0.6:
            kw.update(tau=[3, 4], ds=4)
        s = Settings(rng, **kw)
        factor = rng.choice([1, 1, 2, 7]) if custom else 1
        if custom in ("id", "inv") and s.limit is not None:
            s.limit = factor * rng.choice([0, 2, 6, 20, 1980, 1990])
        size = rng.choice([1, 2, 3, 4, 4, 5, 5, 6, 8, 12, 16])
        neg = rng.randrange(0, min(size, {3: 3, 4: 3, 5: 2, 6: 2, 8: 2}.get(size, 3), size) + 1)
        ev = sample(rng, s, size, neg, generic=rng.random() < 0.5)
        if s.tau[0] and neg and rng.random() < 0.8:
            # single jets, whose distance is next to the limit
            xs = rng.sample(range(40, 400), size)
            for e, x in zip(ev, xs):
                e["parts"] = [("out", 21, (x, x, 0, 0))]
            seed = min(range(size), key=lambda i: ev[i]["w"][0])
            ds = sorted(5 * abs(x - xs[seed]) for x in xs)
            s.limit = max(0, rng.choice(ds[1:4] or ds) - rng.choice([0, 1, 1]))
        lay = Layout(d, rng, ev)
        out = d / "out" if rng.random() < 0.7 else d / "new" / "out"
        # the outcome depends on the order in which seeds are treated
        threads = 1 if neg > 1 else rng.choice([1, 2, 8])
        r = Run(lay, s, shell(driver, d, [run_command(0, s, out, lay.infiles, custom, factor)], threads), out)
        r.custom, r.factor, r.dir = custom, factor, d
        runs.append(r)
    execute(ctx, runs, exe="/bin/sh")
    lines = []
    for r in runs:
        res = results(r.dir)
        # calls that did not return
        r.rc = None if r.rc is None else 2 if len(res) != 1 else 0 if res[0]["ret"] == 0 else 1
        line = recorded(r)
        line.update(custom=r.custom, factor=r.factor, fresh=r.settings.search != "naive",
                    seen=seen(res))
        lines.append(line)
    ctx.expect(sum(1 for x in lines if x["seen"]) > len(lines) // 5, "the distance functions were not used")
    ctx.validate("CapiRunTrace", lines, what="runs through the C interface", timeout=800,
                 describe=lambda i: {"dir": str(runs[i].dir), "custom": runs[i].custom, "log": runs[i].log[-500:]})


def views(ctx, rng, driver, n):
    """what the user-defined distances are shown, for general momenta"""
    import math
    from concurrent.futures import ThreadPoolExecutor

    def particle():
        x, y = rng.choice([(3, 4), (5, 0), (-4, 3), (0, 5), (-6, -8), (8, 6), (0, -10), (5, 12)]) if rng.random() < 0.3 else (0, 0)
        while not (x or y):
            x, y = rng.randrange(-20, 21), rng.randrange(-20, 21)
        z = rng.choice([0, rng.randrange(-20, 21)])
        e = max(math.ceil(math.sqrt(x * x + y * y + z * z)), abs(z) + 1) + rng.choice([0, 0, 1])
        return rng.choice([1, -2, 5, 21, 21, 211, 22, 11, -13, 12, 23, 25, 2212]), (e, x, y, z)

    jobs = []
    for k in range(n):
        d = ctx.tmp(f"v{k}")
        s = Settings(rng, lep=[], pho=[], nu=False, strategy=None, limit=None)
        s.jet = [rng.choice(list(ALGS)), rng.choice([4000, 7000, 10000, 10000, 15000]), rng.choice([0, 1, 37, 113])]
        evs = [{"w": [rng.randrange(1, 100)], "parts": [("out", *particle()) for _ in range(rng.choice([1, 2, 3, 3, 4, 5]))]} for _ in range(rng.choice([8, 20]))]
        rng.choice(evs)["w"][0] *= -1
        texts = [{"w": [str(x) for x in e["w"]], "parts": [(r, t, tuple(str(x) for x in p)) for r, t, p in e["parts"]]} for e in evs]
        f = hepmc_file(texts, rng, unit="GEV") if rng.random() < 0.5 else lhef_file(texts, rng)
        (d / "in").write_bytes(content(f))
        jobs.append((d, s, evs, shell(driver, d, [run_command(0, s, d / "out", [d / "in"], rng.choice(["id", "inv", "px"]), 1)], 1)))
    with ThreadPoolExecutor(8) as ex:
        logs = list(ex.map(lambda j: ctx.run(["/bin/sh", *j[3]], timeout=60), jobs))
    lines = []
    for d, s, evs, _ in jobs:
        res = results(d)
        lines.append({**s.spec(), "rc": res[0]["ret"] if len(res) == 1 else -1, "fresh": s.search != "naive",
                      "evs": [{"w": e["w"], "out": [[t, *p] for _, t, p in e["parts"]]} for e in evs], "seen": seen(res)})
    ctx.expect(sum(len(x["seen"]) for x in lines) > 5 * n, "the distance functions were not used")
    ctx.validate("CapiViewTrace", lines, what="views of events", timeout=600, describe=lambda i: {"dir": str(jobs[i][0]), "log": logs[i][1][-500:]})


def seen(res):
    return [{"id": v["id"], "w": [as_int(x) for x in v["w"]], "out": [[int(p[0])] + [as_int(x) for x in p[1:]] for p in v["out"]]}
            for v in (res[0].get("seen", []) if res else [])]


# ------------------------------------------------------------------- errors
class Bench:
    def __init__(self, ctx, rng, driver):
        self.ctx, self.driver = ctx, driver
        d = self.d = ctx.tmp("h")
        evs = [{"w": [w], "parts": [("out", 21, (x, x, "0", "0"))]} for w, x in [("-1", "100"), ("2", "200")]]
        good = content(hepmc_file(evs, rng, plain=True))
        (d / "good.hepmc").write_bytes(good)
        (d / "also.lhe").write_bytes(content(lhef_file(evs, rng, plain=True)))
        (d / "garbled.hepmc").write_bytes(good.replace(b"\nP 1", b"\nP x", 1))
        x = good.rindex(b"\nP ")
        (d / "cut.hepmc").write_bytes(good[:x + 20])
        (d / "no.xml").write_bytes(content(stripper_file(evs, rng, name="LO", plain=True)))
        (d / "file").write_text("x")
        (d / "empty").write_bytes(b"")
        self.s = Settings()
        self.bad = [["missing" + "g" * k] for k in (0, 1, 7, 100)]
        self.bad += [["garbled.hepmc"], ["cut.hepmc"], ["no.xml"], [".."], ["good.hepmc", "missing"], ["good.hepmc", "good.hepmc"], ["good.hepmc", "file"],
                     ["m\u00fc\u20ac\U0001f600" * 9], ["also.lhe", "/"]]
        self.kinds = [(x, None) for x in self.bad] + [(["good.hepmc"], d / "file"), (["good.hepmc"], d / "file" / "below")]
        self.count = 0
        self.messages = [self.message([self.failing(0, i)]) for i in range(len(self.kinds))]
        for i, m in enumerate(self.messages):
            ctx.expect(m is None or len(m) > 0, f"no message for {self.kinds[i]}")
        self.logged = self.message([command("log", 0, "CRESH_LOGGER")] * 2)
        # those that are not an error would be found by the other parts of this check
        self.usable = [i for i, m in enumerate(self.messages) if m]
        ctx.expect(len(self.usable) > 10, "too few failures")

    def outdir(self):
        self.count += 1
        return self.d / f"o{self.count}"

    def failing(self, th, i):
        files, out = self.kinds[i]
        return run_command(th, self.s, out or self.d / "oooo", [f if f in ("/", "..") else self.d / f for f in files])

    def fine(self, th, rng):
        return run_command(th, self.s, self.outdir(), [self.d / f for f in rng.choice([["good.hepmc"], ["also.lhe"], ["good.hepmc", "also.lhe"], ["empty"], []])],
                           rng.choice(["", "id"]))

    def message(self, cmds):
        """of a failure, in a process of its own"""
        d = self.ctx.tmp("m")
        self.ctx.run(["/bin/sh", *shell(self.driver, d, [*cmds, command("err", 0, 100000)])], timeout=60)
        r = results(d)
        ok = len(r) == len(cmds) + 1 and r[-2]["ret"] != 0 and r[-1]["ret"] == 0 and r[-1]["nul"] > 0
        return r[-1]["msg"] if ok else None

    def buflen(self, rng, m):
        n = len(m) if m else 20
        return max(0, rng.choice([0, 1, 2, n // 2, n - 1, n, n, n + 1, n + 1, n + 2, n + 50, 4000]))

    def history(self, rng, ops):
        """ops: [th, op, arg]"""
        last, logs, cmds, calls = {}, 0, [], []
        for th, op, arg in ops:
            x = {"th": th, "op": {"fail": "run", "ok": "run"}.get(op, op)}
            if op == "fail":
                i = rng.choice(self.usable)
                cmds.append(self.failing(th, i))
                x.update(fail=True, msg=self.messages[i])
                last[th] = self.messages[i]
            elif op == "ok":
                cmds.append(self.fine(th, rng))
                x.update(fail=False, msg=[])
            elif op == "log":
                cmds.append(command("log", th, "CRESH_LOGGER"))
                x.update(fail=logs > 0, msg=self.logged if logs else [])
                logs += 1
                if logs > 1:
                    last[th] = self.logged
            elif op == "print":
                cmds.append(command("print", th))
            else:
                n = self.buflen(rng, last.get(th))
                cmds.append(command("err", th, n))
                x["n"] = n
            calls.append(x)
        return cmds, calls

    def check(self, hists, what):
        from concurrent.futures import ThreadPoolExecutor

        def go(k):
            d = self.ctx.tmp(f"{what.split()[0]}{k}")
            rc, log = self.ctx.run(["/bin/sh", *shell(self.driver, d, hists[k][0])], timeout=60)
            return rc, log, results(d)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(go, range(len(hists))))
        lines = []
        for (cmds, calls), (rc, log, rs) in zip(hists, res):
            rs = rs + [{}] * (len(calls) - len(rs))
            for x, r in zip(calls, rs):
                # without an answer: the call did not return
                if x["op"] in ("run", "log"):
                    x["ret"] = r.get("ret", 0 if x["fail"] else 99)
                elif x["op"] == "print":
                    x["msg"] = r.get("msg", [0])
                else:
                    x["ret"], x["clean"] = r.get("ret", 99), r.get("clean", False) and (r.get("nul", 0) >= 0 or not r.get("touched"))
                    x["written"] = r["msg"] + [0] if r.get("nul", -1) >= 0 else []
            lines.append({"calls": calls})
        self.ctx.validate("CapiTrace", lines, what=what, timeout=600, describe=lambda i: {"cmds": hists[i][0], "rc": res[i][0], "log": res[i][1][-500:]})


def run(ctx):
    build(bins=False)
    driver = build_capi()
    rng = ctx.rng
    ctx.model("CapiModel", "CapiModel_ok", deadlock=False)
    for v, inv in [("overflow", "Safe"), ("nonull", "Retrieved"), ("boundary", "Retrieved"), ("size", "Sufficient"), ("shared", "Retrieved"), ("kept", "Retrieved")]:
        ctx.negative_control("CapiModel", f"CapiModel_{v}", inv, deadlock=False)
    resampling(ctx, rng, driver, 300 if ctx.quick else 3000)
    views(ctx, rng, driver, 60 if ctx.quick else 600)
    cases = [json.loads(x) for x in ctx.tlc("CapiModel", "CapiModel_gen", count=False, deadlock=False).prints("CASE ")]
    ctx.expect(len(cases) > 5000, "histories are missing")
    cases = [c for c in cases if any(x[1] == "fail" for x in c) and len(c) == 3]
    bench = Bench(ctx, rng, driver)
    hists = []
    for c in rng.sample(cases, 300) if ctx.quick else rng.sample(cases, 3000):
        hists.append(bench.history(rng, c + [[t, "err", 0] for t in (1, 2, 3)] + [[t, "err", 0] for t in (1, 2, 3)]))
    # every buffer size around that of the message
    for i in bench.usable:
        m = bench.messages[i]
        for n in sorted({0, 1, 2, 3, len(m) - 1, len(m), len(m) + 1, len(m) + 2} | {rng.randrange(len(m)) for _ in range(5)}):
            cmds = [bench.failing(1, i), command("err", 1, n), command("err", 1, len(m) + 1), command("print", 1)]
            calls = [{"th": 1, "op": "run", "fail": True, "msg": m}, {"th": 1, "op": "err", "n": n}, {"th": 1, "op": "err", "n": len(m) + 1}, {"th": 1, "op": "print"}]
            hists.append((cmds, calls))
    for _ in range(60 if ctx.quick else 600):
        ops = [[rng.randrange(4), rng.choice(["fail", "fail", "ok", "err", "err", "err", "err", "print", "print", "log"]), 0] for _ in range(rng.randrange(5, 40))]
        hists.append(bench.history(rng, ops))
    bench.check(hists, "histories of the C interface")
