"""C19: compressed output (Compression, CompressionModel, CompressionGen, CompressionTrace)."""
from concurrent.futures import ThreadPoolExecutor
from lib.common import *
from lib.faults import big_file, JET
from lib.formats import *
from lib.samples import *

LEVELS = {"bzip2": [None], "gzip": range(10), "lz4": range(17), "zstd": range(20)}
MAGIC = {"gzip": b"\x1f\x8b", "bzip2": b"BZh", "lz4": b"\x04\x22\x4d\x18", "zstd": b"\x28\xb5\x2f\xfd"}
ALL = [[a, l] if l is not None else [a] for a, ls in LEVELS.items() for l in ls]


def algo_of(data):
    return next((a for a, m in MAGIC.items() if data.startswith(m)), "none")


def event_text(rng, n):
    return content(big_file(rng, rng.choice(["hepmc", "lhef", "stripper"]), n))


def streams(ctx, rng, cases, compr, what):
    d = ctx.tmp()
    data = event_text(rng, 1200)
    ctx.expect(len(data) > 300000, "not enough data")
    src = d / "src"
    src.write_bytes(data)
    jobs = []
    for k, (ops, c) in enumerate((o, c) for o in cases for c in compr(o)):
        real = [op for op in ops if op[0] != "drop"]
        jobs.append({"path": str(d / f"{k}.z"), "c": c, "src": str(src), "buf": rng.random() < 0.7,
                     "ops": [[op[0], op[1]] if op[0] == "write" else [op[0]] for op in real], "all": ops})
    parts = [jobs[i::8] for i in range(8)]

    def pieces(j, r, e):
        """the pieces in the file"""
        path = pathlib.Path(j["path"] + ".out")
        text = path.read_bytes() if path.exists() else b""
        out, pos, src_pos = [], 0, 0
        for i, op in enumerate(j["all"]):
            if op[0] != "write":
                continue
            x = data[src_pos:src_pos + op[1]]
            src_pos += op[1]
            if op[1] and text[pos:pos + op[1]] == x:
                out.append(i + 1)
                pos += op[1]
        if pos != len(text):
            out.append(-1)
        if e.get("err") == "":
            out += [0]
        if e.get("rest"):
            out += [-2]
        return out

    def thread(p):
        res = []
        for i in range(0, len(p), 100):
            q = p[i:i + 100]
            rs = sub(ctx, "stream", q)
            es = sub(ctx, "decompress", [{"path": j["path"], "as": j["c"][0], "dst": j["path"] + ".out"} for j in q])
            for j, r, e in zip(q, rs, es):
                res.append({"kind": "stream", "ops": [list(op) for op in j["all"]], "res": r.get("res", []),
                            "out": pieces(j, r, e) if r.get("open") == "" else [-3], "c": [str(x) for x in j["c"]]})
                for x in (j["path"], j["path"] + ".out"):
                    pathlib.Path(x).unlink(missing_ok=True)
        return res

    with ThreadPoolExecutor(8) as ex:
        lines = [x for p in ex.map(thread, parts) for x in p]
    ctx.validate("CompressionTrace", lines, what=what, timeout=900)


def sub(ctx, op, cases):
    """harness in a thread"""
    import threading, copy
    c = copy.copy(ctx)
    c.work = ctx.work / f"t{threading.get_ident()}"
    c.work.mkdir(exist_ok=True)
    return c.harness(op, cases, timeout=300)


def has_checksum(z):
    """whether the content is protected by a checksum"""
    a = algo_of(z)
    return a in ("gzip", "bzip2") or a in ("lz4", "zstd") and len(z) > 4 and bool(z[4] & 4)


def sizes(ctx, rng):
    """each level has its effect"""
    d = ctx.tmp()
    # text in which the levels differ: repeated and modified pieces
    pool = ["".join(rng.choice("0123456789.e+- ") for _ in range(rng.randrange(20, 400))) for _ in range(300)]
    parts = [event_text(rng, 700).decode()]
    while sum(map(len, parts)) < 900000:
        p = rng.choice(pool)
        a = rng.randrange(len(p))
        parts.append(p[a:a + rng.randrange(5, 300)])
        parts.append(repr(rng.uniform(-500, 500)))
    data = "".join(parts).encode()
    (d / "src").write_bytes(data)
    cs = ALL
    got = ctx.harness("stream", [{"path": str(d / f"{k}.z"), "c": c, "src": str(d / "src"), "buf": True, "ops": [["write", len(data)]]}
                                 for k, c in enumerate(cs)], timeout=300)
    ref = ctx.harness("pack", [{"src": str(d / "src"), "dst": str(d / f"{k}.r"), "as": c[0], "lvl": c[1] if len(c) > 1 else 9}
                               for k, c in enumerate(cs)], timeout=300)
    lines = []
    for k, (c, r, g) in enumerate(zip(cs, ref, got)):
        z = (d / f"{k}.z").read_bytes()
        refs = [x["len"] for y, x in zip(cs, ref) if y[0] == c[0]]
        lines.append({"kind": "size", "size": len(z), "refs": refs, "sel": [y for y in cs if y[0] == c[0]].index(c) + 1,
                      "algo": c[0], "checksum": has_checksum(z), "c": [str(x) for x in c], "open": g["open"], "ref": r["len"]})
    ctx.expect(len({x["ref"] for x in lines}) > 35, "sizes do not depend on the level")
    ctx.validate("CompressionTrace", lines, what="sizes of compressed data")
    shutil.rmtree(d)


def spelled(rng, s):
    return rng.choice([s, s, s.upper(), s.capitalize(), "".join(rng.choice([x, x.upper()]) for x in s)])


def settings(ctx, rng, cases):
    d = ctx.tmp("set")
    srcs = []
    for i in range(3):
        fmt = ["hepmc", "lhef", "stripper"][i]
        p = d / f"s{i}.{EXT[fmt]}"
        p.write_bytes(content(big_file(rng, fmt, 40)))
        n = d / "norm.xml"
        n.write_bytes(normalization("LO", "12.5").encode())
        srcs.append([str(p), str(n)] if fmt == "stripper" else [str(p)])
    part = d / "part"
    rc, log = ctx.run([bin_path("cres-partition"), "-o", str(part), "--regions", "4", *JET, srcs[0][0]])
    ctx.expect(rc == 0, f"no partition: {log[-500:]}")

    def args(tool, i, out):
        if tool == "cres":
            return [bin_path(tool), *JET, "-t", "1", "-o", str(out), *srcs[i]]
        if tool == "cres-partition":
            return [bin_path(tool), *JET, "-t", "1", "--regions", "4", "-o", str(out / "p"), srcs[i][0]]
        return [bin_path(tool), "-p", str(part), "-o", str(out), srcs[i][0]]

    def go(tool, i, key, option=None, env=None):
        out = d / key
        if tool == "cres-partition":
            out.mkdir()
        rc, log = ctx.run(args(tool, i, out) + (option or []), timeout=60)
        files = {p.name: p.read_bytes() for p in sorted(out.iterdir())} if out.exists() else {}
        return -1 if rc is None else rc, log, files, out

    base = {}
    for tool in ["cres", "cres-partition", "cres-classify-events"]:
        for i in range(3):
            rc, log, files, _ = go(tool, i, f"base{tool}{i}")
            ctx.expect(rc == 0, f"undisturbed run failed: {log[-500:]}")
            base[tool, i] = files

    jobs = []
    for c in cases:
        n = rng.choice([1, 2]) if ctx.quick else 4
        for _ in range(n):
            lvl = "" if c["level"] < 0 else f"_{c['level']}"
            jobs.append({"name": c["name"], "level": c["level"], "junk": False, "text": spelled(rng, c["name"]) + lvl, "sel": c["sel"]})
    for c in rng.sample([c for c in cases if c["sel"]["ok"] and c["level"] >= 0], 60):
        nm, lv = c["name"], str(c["level"])
        for t in rng.sample([f"{nm}{lv if not nm.endswith('z4') else '_x'}", f"{nm}-{lv}", f"{nm}_", f"{nm}_-{lv}", f"{nm}_{lv}x", f"{nm}_{lv}_1", f"{nm}:{lv}", f"{nm}_ {lv}",
                             f" {nm}_{lv}", f"{nm}_{lv} ", f"{nm}_{lv}.5", f"_{lv}", f"{nm}__{lv}", f"{lv}_{nm}", f"{nm}_+{lv}"], 3):
            jobs.append({"name": nm, "level": c["level"], "junk": True, "text": t, "sel": {"ok": False}})
    for k, j in enumerate(jobs):
        j["tool"], j["i"] = rng.choice(["cres", "cres", "cres-partition", "cres-classify-events"]), rng.randrange(3)

    def one(k):
        j = jobs[k]
        flag = rng.choice(["--compression", "-c"]) if j["tool"] == "cres-classify-events" else "--compression"
        rc, log, files, out = go(j["tool"], j["i"], f"r{k}", [f"{flag}={j['text']}"] if flag == "--compression" else [flag, j["text"]])
        usage = rc == 2 and "error:" in log and "panicked" not in log
        return {"kind": "setting", "name": j["name"], "level": j["level"], "junk": j["junk"], "rc": rc, "err": usage, "files": len(files),
                "text": j["text"], "tool": j["tool"]}, files, log[-400:]

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(jobs))))
    # content and sizes
    dec, keys, refs = [], [], []
    for k, (j, (line, files, _)) in enumerate(zip(jobs, res)):
        algos = {algo_of(x) for x in files.values()}
        line["algo"] = algos.pop() if len(algos) == 1 else "none"
        line["same"] = set(files) == set(base[j["tool"], j["i"]])
        line["size"], line["ref"] = sum(map(len, files.values())), []
        for name, x in files.items():
            p = d / f"z{len(dec)}"
            p.write_bytes(x)
            dec.append({"path": str(p), "as": line["algo"], "dst": str(p) + ".out"})
            keys.append((k, name))
            # lz4 depends on the size of the pieces
            if j["sel"]["ok"] and j["sel"]["algo"] != "lz4" and line["same"]:
                src = d / f"{j['tool']}{j['i']}{name}.plain"
                src.write_bytes(base[j["tool"], j["i"]][name])
                refs.append((k, {"src": str(src), "dst": str(d / "ref"), "as": j["sel"]["algo"], "lvl": j["sel"]["lvl"] if j["sel"]["algo"] != "bzip2" else 9}))
    for (k, name), x, r in zip(keys, dec, ctx.harness("decompress", dec, timeout=300)):
        p = pathlib.Path(x["dst"])
        ok = r.get("err") == "" and r.get("rest") == 0 and p.exists() and p.read_bytes() == base[jobs[k]["tool"], jobs[k]["i"]].get(name)
        res[k][0]["same"] = res[k][0]["same"] and ok
    for (k, _), r in zip(refs, ctx.harness("pack", [x for _, x in refs], timeout=300)):
        res[k][0]["ref"] = [sum(res[k][0]["ref"]) + r["len"]]
    ctx.validate("CompressionTrace", [x for x, _, _ in res], what="compression settings", timeout=600,
                 describe=lambda i: {"text": jobs[i]["text"], "tool": jobs[i]["tool"], "log": res[i][2]})
    shutil.rmtree(d)


def levels(ctx, rng):
    """the levels selected on the command line, compared to what the library writes for each of them"""
    d = ctx.tmp("lz")
    evs = [{"w": ["1.0"], "parts": [("out", 21, tuple(repr(rng.uniform(-500, 500)) for _ in range(4))) for _ in range(200)]} for _ in range(30)]
    src = d / "s.lhe"
    src.write_bytes(content(lhef_file(evs, rng, plain=True)))
    algos = [a for a in LEVELS if a != "bzip2"]
    cases = [(a, a, lvl) for a in algos for lvl in LEVELS[a]] + [(a, n, -1) for n, a in [("lz4", "lz4"), ("LZ4", "lz4"), ("gzip", "gzip"), ("GZ", "gzip"), ("gz", "gzip"), ("zstd", "zstd"), ("Zstandard", "zstd")]]
    comps = [(a, lvl) for a in algos for lvl in LEVELS[a]]
    ctx.harness("io", [{"files": [[str(src), str(d / f"r{a}{lvl}")]], "names": [], "compression": [a, lvl], "ops": [["all", [["1.0"]] * 30]]} for a, lvl in comps])

    def size(p):
        return p.stat().st_size if p.exists() else -1

    refs = {a: [size(d / f"r{a}{lvl}") for lvl in LEVELS[a]] for a in algos}
    ctx.expect(all(len(set(x)) > 3 for x in refs.values()), "sizes do not depend on the level")

    def go(k):
        a, n, lvl = cases[k]
        rc, log = ctx.run([bin_path("cres"), *JET, "-o", str(d / f"o{k}"), "--compression", n if lvl < 0 else f"{n}_{lvl}", str(src)], timeout=60)
        return rc
    with ThreadPoolExecutor(8) as ex:
        rcs = list(ex.map(go, range(len(cases))))
    lines = []
    for k, ((a, n, lvl), rc) in enumerate(zip(cases, rcs)):
        p = d / f"o{k}" / "s.lhe"
        x = p.read_bytes() if p.exists() else b""
        lines.append({"kind": "level", "name": n.lower(), "level": lvl, "rc": rc, "algo": algo_of(x), "size": len(x), "refs": refs[a]})
    ctx.validate("CompressionTrace", lines, what="levels of settings")
    shutil.rmtree(d)


def run(ctx):
    build()
    rng = ctx.rng
    ctx.model("CompressionModel", "CompressionModel_ok", deadlock=False)
    ctx.negative_control("CompressionModel", "CompressionModel_drop", "Complete", deadlock=False)
    ctx.negative_control("CompressionModel", "CompressionModel_again", "Complete", deadlock=False)
    ctx.negative_control("CompressionModel", "CompressionModel_late", "Content", deadlock=False)
    hist = [json.loads(x) for x in ctx.tlc("CompressionModel", "CompressionModel_gen", count=False, deadlock=False).prints("CASE ")]
    hist = [h + [["drop", 0]] if h[-1:] != [["drop", 0]] else h for h in hist]
    ctx.expect(len(hist) > 500, "histories are missing")
    streams(ctx, rng, hist, lambda o: rng.sample(ALL, 4) + [["gzip", rng.randrange(10)]] if ctx.quick else ALL, "histories of a writer")
    # arbitrary pieces
    long = []
    for _ in range(150 if ctx.quick else 1500):
        ops = []
        for _ in range(rng.choice([1, 3, 10, 60])):
            ops.append(["write", rng.choice([1, 7, 100, 900, 3000, 8191, 8192, 8193, 20000, 65536])] if rng.random() < 0.9 else ["flush", 0])
            if sum(x[1] for x in ops) > 250000:
                ops.pop()
                break
        if rng.random() < 0.5:
            ops.append(["finish", 0])
        long.append(ops + [["drop", 0]])
    streams(ctx, rng, long, lambda o: rng.sample(ALL, 3), "arbitrary pieces")
    sizes(ctx, rng)
    levels(ctx, rng)
    cases = [json.loads(x) for x in ctx.tlc("CompressionGen", "CompressionGen", count=False, deadlock=False).prints("CASE ")]
    ctx.expect(len(cases) > 500, "settings are missing")
    settings(ctx, rng, cases)
