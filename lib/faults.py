"""Runs of the tools with injected faults (shim/faults.c)."""
import bz2, gzip
from concurrent.futures import ThreadPoolExecutor
from lib.common import *
from lib.formats import *
from lib.samples import *
from lib.classify import raw_parts

JET = ["-a", "anti-kt", "-R", "0.4", "-p", "5"]
COMPR = [None, "bzip2", "gzip_1", "gzip_9", "lz4_0", "lz4_9", "zstd_1", "zstd_12"]


def shim(ctx):
    so = ctx.work / "faults.so"
    p = subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-o", str(so), str(VERIF / "shim" / "faults.c"), "-ldl", "-lpthread"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise CheckError(f"cannot build shim: {p.stdout}")
    return so


def big_file(rng, fmt, n, name="LO", large=()):
    """n events, those in large exceed the buffers"""
    evs = []
    for i in range(n):
        k = 400 if i in large else rng.randrange(1, 9)
        parts = [("out", rng.choice([21, 1, -2, 11]), tuple(repr(rng.uniform(-500, 500)) for _ in range(4))) for _ in range(k)]
        w = rng.uniform(0.1, 2) * (-1 if i % 5 == 0 else 1)
        evs.append({"w": [repr(w)], "parts": parts})
    if fmt == "hepmc":
        return hepmc_file(evs, rng, plain=True)
    if fmt == "lhef":
        return lhef_file(evs, rng, plain=True)
    return stripper_file(evs, rng, name=name, plain=True)


class Setup:
    """a command with its undisturbed result"""


class FaultBench:
    def __init__(self, ctx):
        self.ctx, self.so = ctx, shim(ctx)
        self.todo, self.n = [], 0
        self.part = None

    def execute(self, setup, plan, key, keep=False):
        d = self.ctx.work / "f" / key
        out = d / "out"
        d.mkdir(parents=True)
        log = d / "log"
        env = {"LD_PRELOAD": self.so, "FAULT_LOG": log, "FAULT_PLAN": ",".join(f"{k}:{w}" for k, w in plan)}
        env["FAULT_IN" if setup.reading else "FAULT_OUT"] = setup.dir if setup.reading else out
        if setup.tool == "cres-partition":
            out.mkdir()
        rc, text = self.ctx.run([bin_path(setup.tool), *setup.args, "-o", str(out / "p") if setup.tool == "cres-partition" else str(out),
                                 *setup.files], timeout=60, env=env, cwd=d)
        rc = -1 if rc is None else rc if rc >= 0 else 128 - rc
        m = re.search(r"Error: (.*\S)", text)
        ops, ids = [], {}
        if log.exists():
            for x in log.read_text().splitlines():
                op, want, got, path = x.split("\t", 3)
                ops.append([op, ids.setdefault(path, len(ids) + 1), int(want), int(got)])
        files = {}
        if out.exists():
            for p in sorted(out.iterdir()):
                files[p.name] = p.read_bytes()
        shutil.rmtree(d, ignore_errors=True)
        return {"rc": rc, "msg": "" if "panicked" in text or not m else "error", "ops": ops, "files": files, "log": text}

    def setup(self, tool, files, args, compression, reading=False):
        s = Setup()
        s.tool, s.reading, s.compression = tool, reading, compression
        self.n += 1
        s.dir = self.ctx.tmp(f"in{self.n}")
        s.files = []
        for name, data in files:
            (s.dir / name).write_bytes(data)
            s.files.append(str(s.dir / name))
        plain = list(args)
        s.args = plain + (["--compression", compression] if compression else [])
        r = self.execute(s, [], f"b{self.n}")
        if r["rc"] != 0:
            raise CheckError(f"undisturbed run failed: {r['log'][-1000:]}")
        s.full = r["files"]
        # compressed files contain the same as uncompressed ones
        s.plain = s.full
        if compression:
            s.args = plain
            s.plain = self.execute(s, [], f"c{self.n}")["files"]
            s.args = plain + ["--compression", compression]
        s.ncalls = sum(o[0] != "close" for o in r["ops"])
        s.first = r
        if s.ncalls == 0:
            raise CheckError("no calls were observed")
        calls = [o for o in r["ops"] if o[0] != "close"]
        # first and last calls on each file
        s.edges = set()
        for f in {o[1] for o in calls}:
            ks = [k + 1 for k, o in enumerate(calls) if o[1] == f]
            s.edges |= {ks[0], ks[-1]} | set(ks[-2:])
        return s

    def add(self, setup, plans):
        self.todo += [(setup, p) for p in plans]

    def undisturbed(self, setups, what):
        """the results of undisturbed runs are complete"""
        d = self.ctx.tmp()
        jobs = []
        for i, s in enumerate(setups):
            for j, (name, data) in enumerate(s.full.items()):
                (d / f"{i}_{j}").write_bytes(data)
                jobs.append({"path": str(d / f"{i}_{j}"), "as": (s.compression or "none").split("_")[0], "dst": str(d / f"{i}_{j}.out")})
        res = iter(self.ctx.harness("decompress", jobs))
        lines = []
        for i, s in enumerate(setups):
            files, nrec = [], 0
            same = set(s.full) == set(s.plain)
            for j, (name, data) in enumerate(s.full.items()):
                r = next(res)
                out = d / f"{i}_{j}.out"
                text = out.read_bytes() if out.exists() else b""
                ok = same and r.get("err") == "" and r.get("rest") == 0 and text == s.plain[name]
                if s.tool != "cres-partition":
                    try:
                        _, recs, foot, nfoot = raw_parts(s.fmt, text)
                        nrec += len(recs)
                        ok = ok and nfoot == 1
                    except BadFile:
                        ok = False
                files.append({"exists": True, "size": len(data), "full": len(data), "same": ok})
            if s.tool != "cres-partition" and nrec != s.nrec or not files:
                files.append({"exists": False, "size": 0, "full": 0, "same": False})
            lines.append({"ops": s.first["ops"], "files": files, "rc": s.first["rc"], "msg": ""})
        self.ctx.validate("OutputTrace", lines, what=what,
                          describe=lambda i: {"tool": setups[i].tool, "args": setups[i].args, "files": setups[i].files})

    def run(self, what):
        todo, self.todo = self.todo, []
        self.n += 1
        base = self.n

        def go(k):
            setup, plan = todo[k]
            r = self.execute(setup, plan, f"r{base}_{k}")
            files = []
            for name, data in setup.full.items():
                got = r["files"].get(name)
                files.append({"exists": got is not None, "size": len(got or b""), "full": len(data), "same": got == data})
            return {"ops": r["ops"], "files": files, "rc": r["rc"], "msg": r["msg"]}, r["log"][-500:]

        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(go, range(len(todo))))
        lines = [x for x, _ in res]
        self.ctx.validate("OutputTrace", lines, what=what, timeout=900,
                          describe=lambda i: {"plan": todo[i][1], "tool": todo[i][0].tool, "args": todo[i][0].args, "log": res[i][1]})


def setups(ctx, bench, rng, reading=False):
    """all tools, formats and compressions"""
    if bench.part is None:
        # a partition for the classification
        f = big_file(rng, "hepmc", 40)
        s = bench.setup("cres-partition", [("s.hepmc", content(f))], ["--regions", "4", "-t", "1", *JET], None)
        bench.part = ctx.tmp("part") / "p"
        bench.part.write_bytes(s.full["p"])
    res = []
    compr = [None] if reading else COMPR
    for c in compr:
        for fmt in ["hepmc", "lhef", "stripper"]:
            if c and ctx.quick and rng.random() < 0.3:
                continue
            nf, n = rng.choice([1, 2]), rng.choice([8, 60])
            files = [(f"f{i}." + EXT[fmt], content(big_file(rng, fmt, n, large={3} if rng.random() < 0.5 else ())))
                     for i in range(nf)]
            first = len(res)
            norm = [("n.xml", normalization("LO", "12.5").encode())] if fmt == "stripper" else []
            res.append(bench.setup("cres", files + norm, ["-t", "1", *JET], c, reading))
            if rng.random() < 0.5 or not ctx.quick:
                res.append(bench.setup("cres-classify-events", files, ["-p", str(bench.part)], c, reading))
            if fmt == "hepmc" or rng.random() < 0.3:
                res.append(bench.setup("cres-partition", files, ["--regions", "2" if n < 20 else "4", "-t", "1", *JET], c, reading))
            for s in res[first:]:
                s.fmt, s.nrec = fmt, nf * n
    return res
