"""C24: options are accepted or refused as documented, also from argument files, and take effect
(Options, OptionsTrace, RunTrace)."""
import json
from concurrent.futures import ThreadPoolExecutor
from lib.common import *
from lib.classify import *

SHORT = {"outdir": "-o", "outfile": "-o", "jetalgorithm": "-a", "jetradius": "-R", "jetpt": "-p", "threads": "-t",
         "compression": "-c", "loglevel": "-l", "minweight": "-w", "search": "-s", "partition": "-p"}
SHORT_OF = {"cres": {"outdir", "jetalgorithm", "jetradius", "jetpt", "minweight", "search", "threads", "loglevel", "compression"},
            "cres-partition": {"outfile", "jetalgorithm", "jetradius", "jetpt", "threads", "loglevel", "compression"},
            "cres-classify-events": {"partition", "outdir", "compression", "loglevel"}}


def short_forms(ctx):
    """short options, as far as the help lists them"""
    res = {}
    for t in SHORT_OF:
        rc, out = ctx.run([bin_path(t), "--help"], timeout=20)
        ctx.expect(rc == 0, f"{t} --help: exit status {rc}")
        res[t] = {n: SHORT[n] for n in SHORT_OF[t] if re.search(rf"{SHORT[n]}, --{n}\b", out)}
    return res


def to_files(rng, d, args, key, p=0.5):
    """move runs of arguments to (nested) argument files"""
    count = [0]

    def move(a, depth):
        if depth == 3 or rng.random() >= p or any("\n" in x for x in a):
            return a
        i = rng.randrange(len(a) + 1)
        j = rng.randrange(i, len(a) + 1)
        count[0] += 1
        f = d / f"{key}args{count[0]}"
        mid = move(a[i:j], depth + 1)
        text = "\n".join(mid)
        if mid and (rng.random() < 0.7 or mid[-1] == ""):
            text += "\n"
        f.write_text(text)
        return move(a[:i], depth + 1) + [f"@{f}"] + move(a[j:], depth + 1)

    return move(list(args), 0)


def files_below(d):
    return {str(p): (p.stat().st_mtime_ns, p.stat().st_size) for p in d.rglob("*")}


def run(ctx):
    build()
    rng = ctx.rng
    ctx.model("Options", "Options_ok")
    ctx.negative_control("Options", "Options_last")

    # command lines
    short = short_forms(ctx)
    base = ctx.tmp("cli")
    small = [{"w": [("-" if i % 2 else "") + str(3 + i % 7)] * 2,
              "parts": [("out", rng.choice([1, 21, 11, 22, 14]), (str(50 + i % 97), str(50 + i % 97), "0", "0"))]} for i in range(120)]
    large = [{"w": ["-2.0", "1"], "parts": [("out", 21, (repr(40 + i * 0.37), repr(40 + i * 0.37), "0", "0"))]} for i in range(6500)]
    frng = random.Random(1)
    items = []
    for n, ev in (("small", small), ("large", large)):
        f = hepmc_file(ev, frng, [["0", "central"]] * len(ev), plain=True)
        items.append((base / f"{n}.hepmc", content(f), None))
    write_files(ctx, items)
    rc, out = ctx.run([bin_path("cres-partition"), "-o", base / "partition", "--regions", "4", "-a", "kt", "-R", "0.4", "-p", "30",
                       base / "small.hepmc"], timeout=60)
    ctx.expect(rc == 0, "cres-partition fails", {"log": out})

    cases = [json.loads(x) for x in ctx.tlc("OptionsGen", "OptionsGen", count=False, deadlock=False).prints("CASE ")]
    # every value, once or more often, with arguments in any order, given directly or in files
    if not ctx.quick:
        cases = cases * 6

    def go(k):
        c, seed = cases[k], seeds[k]
        r = random.Random(seed)
        d = base / f"d{k}"
        d.mkdir()
        args = []
        for name, text, num in c["opts"]:
            v = str(num) if num != 999999999 else ""
            if text:
                v = text + ("_" + v if v else "")
            if name == "include-neutrinos":
                args.append(["--include-neutrinos"])
                continue
            if name == "missing-file":
                args.append([f"@{d}/nothing"])
                continue
            if name in ("outdir", "outfile", "partition"):
                v = str({"outdir": d / "out", "outfile": d / "out", "partition": base / "partition"}[name])
            if name == "loglevel":
                v = r.choice(["off", "error", "warn", "info", "debug", "trace", "Info", "WARN"])
            if v == "" or v.startswith("-"):
                args.append([f"--{name}={v}"])
            elif name in short[c["tool"]] and r.random() < 0.5:
                args.append(r.choice([[short[c["tool"]][name], v], [short[c["tool"]][name] + v]]))
            else:
                args.append(r.choice([[f"--{name}", v], [f"--{name}={v}"]]))
        big = any(n == "regions" and 32 < x < 10 ** 6 for n, _, x in c["opts"])
        args.append([str(base / ("large.hepmc" if big else "small.hepmc"))])
        r.shuffle(args)
        argv = to_files(r, base, [x for a in args for x in a], f"c{k}_")
        before = files_below(d)
        rc, log = ctx.run([bin_path(c["tool"]), *argv], timeout=60, cwd=d)
        return argv, {**c, "rc": -1 if rc is None else rc, "written": files_below(d) != before, "message": bool(log.strip())}, log

    seeds = [rng.randrange(2 ** 60) for _ in cases]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, range(len(cases))))
    ctx.validate("OptionsTrace", [x[1] for x in res], what="command lines", timeout=300,
                 describe=lambda i: {"argv": res[i][0], "log": res[i][2][-600:]})

    # what the options do, when they are given directly or in files
    runs = []
    q = 1 if ctx.quick else 8
    for key, n, kw in (("a", 60 * q, {}), ("b", 60 * q, {"names": True}), ("c", 60 * q, {"unweight": True})):
        runs += simple_runs(ctx, rng, n, key=key, **kw)
    for k, r in enumerate(runs):
        r.argv = to_files(rng, r.layout.dir, r.argv, "", 0.8)
    check_runs(ctx, runs, "runs with options in argument files")
    tools = [ToolRun(ctx, rng, f"p{k}", nsample=rng.choice([12, 15]), n=rng.choice([1, 2, 4])) for k in range(100 * q)]
    for r in tools:
        r.pargs, r.cargs = to_files(rng, r.dir, r.pargs, "p", 0.5), to_files(rng, r.dir, r.cargs, "c", 0.5)
    check_tools(ctx, tools, "ClassTrace_part", "partitions with options in argument files")
