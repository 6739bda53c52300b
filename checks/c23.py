"""C23: results depend only on the event sequence and the settings (Run, PairTrace, RunTrace, Targets, TargetsTrace)."""
from concurrent.futures import ThreadPoolExecutor
from lib.common import *
from lib.e2e import *


def snapshot(root):
    """all files below root; links are followed for contents"""
    res = {}
    for p in sorted(root.rglob("*")):
        if p.is_dir() and not p.is_symlink():
            continue
        if p.is_dir():
            continue
        res[str(p.relative_to(root))] = (p.is_symlink(), p.read_bytes() if p.exists() else None)
    return res


def targets(ctx):
    """runs that would overwrite files"""
    rng = ctx.rng
    cases = [json.loads(x) for x in ctx.tlc("TargetsGen", count=False).prints("CASE ")]
    if ctx.quick:
        cases = rng.sample(cases, 900)
    base = ctx.tmp("targets")
    s = Settings()
    ev = [{"w": [-(i + 1)], "parts": [("out", 23, (i + 50, i + 50, 0, 0))]} for i in range(4)]
    lay = Layout(base, rng, ev, formats=["hepmc"], nfiles=1, suffixes=False)
    write_files(ctx, lay.items)
    part = base / "partition.yaml"
    rc, log = ctx.run([bin_path("cres-partition"), "-o", part, "--regions", "2", "-a", "kt", "-R", "0.4", "-p", "30", lay.infiles[0]])
    if rc != 0:
        raise CheckError("cannot create a partition: " + log)

    def go(k):
        run = cases[k]["run"]
        root = base / f"t{k}"
        real = lambda p: root / p[0] / ".".join(p[1])
        for x in "AB":
            (root / x).mkdir(parents=True)
        (root / "L").symlink_to("A")
        link = run["link"]
        fresh = run["out"] == "O" and link["kind"] == "none" and rng.random() < 0.5
        if not fresh:
            (root / "O").mkdir()
        n = 0
        for p in run["ins"]:
            if link["kind"] == "none" or p != link["from"]:
                if not real(p).exists():
                    n += 1
                    real(p).write_bytes(content(hepmc_file([{"w": [str(n)], "parts": [("out", 23, ("50", "50", "0", "0"))]}], rng)))
        if link["kind"] == "sym":
            src, to = real(link["from"]), real(link["to"])
            src.symlink_to(to if k % 2 else os.path.relpath(to, src.parent))
        elif link["kind"] == "hard":
            os.link(real(link["to"]), real(link["from"]))
        before = snapshot(root)
        ins = [str(real(p)) if k % 3 else os.path.relpath(real(p), root) for p in run["ins"]]
        out = root / run["out"]
        out = [str(out), os.path.relpath(out, root), str(out) + "/", str(root / "A" / ".." / run["out"])][k % 4]
        if run["tool"] == "cres":
            a = [bin_path("cres"), "-o", out, *s.args(), *ins]
        else:
            a = [bin_path("cres-classify-events"), "-p", part, "-o", out, *ins]
        rc, log = ctx.run(a, cwd=root)
        after = snapshot(root)
        ids = {tuple(p[1]) for p in run["ins"]}
        inputs = [str(real(p).relative_to(root)) for p in run["ins"]]
        outs = set()
        names = [[n] if run["tool"] == "cres" else [[n[0], i] + n[1:] for i in "01"] for n in (p[1] for p in run["ins"])]
        for n in (m for x in names for m in x):
            f = root / run["out"] / ".".join(n)
            if f.exists() and b"END_EVENT_LISTING" in f.read_bytes():
                outs.add(os.path.realpath(f))
        line = {"run": run, "rc": -1 if rc is None else rc, "touched": after != before,
                "intact": all(after.get(i) == before[i] for i in inputs), "outs": len(outs)}
        shutil.rmtree(root)
        return line, log

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, range(len(cases))))
    ctx.validate("TargetsTrace", [x for x, _ in res], what="runs that may overwrite files",
                 describe=lambda i: res[i][1][-500:])


def run(ctx):
    build()
    rng = ctx.rng
    ctx.model("Targets", "Targets_ok")
    ctx.negative_control("Targets", "Targets_byname", "InputsIntact")
    ctx.model("RunModel", "RunModel_ok")
    targets(ctx)

    q = 1 if ctx.quick else 8
    runs, pairs = [], []
    for k in range(200 * q):
        a = simple_runs(ctx, rng, 1, key=f"a{k}_", names=rng.random() < 0.25, unweight=rng.random() < 0.35, settings={"threads": 1})[0]
        # a repetition
        b = Run(a.layout, a.settings, [str(a.layout.dir / "rep") if x == str(a.outdir) else x for x in a.argv], a.layout.dir / "rep")
        # another layout
        c = again(ctx, a, rng, f"c{k}", settings={"search": rng.choice([None, "tree", "naive"]),
                                                  "compression": rng.choice(COMPR_OPT)},
                  key=rng.choice(["in", "z", "0"]), nfiles=rng.choice([1, 2, 5]))
        runs += [a, b, c]
        pairs += [(a, b), (a, c)]
    check_runs(ctx, runs, "runs")
    check_pairs(ctx, pairs, "runs on the same events")
