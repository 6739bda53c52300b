"""Shared machinery of the checks: building the code under test, running TLC,
driving the harness, collecting evidence and reporting violations."""
import json, os, re, shutil, subprocess, sys, time, hashlib, pathlib, fcntl, random

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("CRES_REPO", "/repo"))
BUILD = VERIF / ".build"
SPEC = VERIF / "spec"
SCALAR_FEATURES = "lhef,stripper-xml"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not run (exit status 2)."""


class Found(Exception):
    """Violations were found; there is no need to go on."""


def cargo_env(variant="full"):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUST_LOG", "CRES_LOG", "RAYON_NUM_THREADS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env.update(
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="0",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        # what users run: no debug assertions, wrapping arithmetic
        CARGO_PROFILE_DEV_OPT_LEVEL="1",
        CARGO_PROFILE_DEV_DEBUG="0",
        CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false",
        CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false",
        CARGO_TARGET_DIR=str(BUILD / "target"),
    )
    return env


def _cargo(args, cwd):
    p = subprocess.run(["cargo", *args], cwd=cwd, env=cargo_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=840)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        raise CheckError("build failed: cargo " + " ".join(args))


def ensure_lock():
    """upstream commits no Cargo.lock; it is git-excluded in /repo"""
    lock = REPO / "Cargo.lock"
    if not lock.exists() and pathlib.Path("/opt/vp/Cargo.lock").exists():
        shutil.copy("/opt/vp/Cargo.lock", lock)


def build(bins=True, harness=True, scalar=False):
    """(Re)build from /repo's working tree."""
    BUILD.mkdir(exist_ok=True)
    with open(BUILD / "lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ensure_lock()
        if harness:
            _cargo(["build", "--offline", "--locked"], VERIF / "harness")
        if bins:
            _cargo(["build", "--offline", "--manifest-path", str(REPO / "Cargo.toml"),
                    "--bins", "--features", "capi,stripper-xml"], REPO)
        if scalar:
            # the package without multiple weights
            _cargo(["build", "--offline", "--manifest-path", str(REPO / "Cargo.toml"), "--bin", "cres",
                    "--no-default-features", "--features", SCALAR_FEATURES,
                    "--target-dir", str(BUILD / "target-scalar")], REPO)


def build_capi():
    """the C library, its header, and the driver that uses them; returns the driver's path"""
    target = BUILD / "target-c"
    with open(BUILD / "lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ensure_lock()
        args = ["build", "--offline", "--manifest-path", str(REPO / "Cargo.toml"), "--lib", "--features", "capi,stripper-xml",
                "--target-dir", str(target), "--message-format", "json-render-diagnostics"]
        p = subprocess.run(["cargo", *args], cwd=REPO, env=cargo_env(), capture_output=True, text=True, timeout=840)
        if p.returncode != 0:
            sys.stdout.write(p.stderr[-6000:])
            raise CheckError("build failed: cargo " + " ".join(args))
        msgs = [json.loads(x) for x in p.stdout.splitlines() if x.startswith("{")]
        of_cres = lambda m: re.search(r"[/#]cres[@#]", m.get("package_id", "")) or m.get("package_id", "").startswith(f"path+file://{REPO}#")
        header = next(pathlib.Path(m["out_dir"]) for m in msgs if m["reason"] == "build-script-executed" and of_cres(m))
        lib = next(pathlib.Path(f) for m in msgs if m["reason"] == "compiler-artifact" and of_cres(m) for f in m["filenames"] if f.endswith("libcres.so"))
        exe = target / "capi"
        p = subprocess.run(["gcc", "-O1", "-o", str(exe), str(VERIF / "shim" / "capi.c"), f"-I{header}", str(lib), f"-Wl,-rpath,{lib.parent}",
                            "-lm", "-lpthread"], capture_output=True, text=True)
        if p.returncode != 0:
            sys.stdout.write(p.stderr[-6000:])
            raise CheckError("the C interface does not compile")
    return str(exe)


def bin_path(name, scalar=False):
    return str(BUILD / ("target-scalar" if scalar else "target") / "debug" / name)


class Tlc:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        ms = re.search(r"The number of states generated: ([\d,]+)", out)  # simulation
        num = lambda s: int(s.replace(",", ""))
        self.generated = num(m.group(1)) if m else (num(ms.group(1)) if ms else 0)
        self.distinct = num(m.group(2)) if m else (num(ms.group(1)) if ms else 0)
        self.ok = rc == 0
        self.violated = None
        for pat in (r"Error: Invariant (\S+) is violated", r"Error: Action property (\S+) is violated",
                    r"Error: Temporal properties were violated", r"Error: Deadlock reached",
                    r"Error: (Assumption .*?) is false", r"Error: The postcondition (\S+)"):
            m = re.search(pat, out)
            if m:
                self.violated = m.group(1) if m.groups() else m.group(0)[7:]
                break

    def prints(self, tag):
        """strings printed by PrintT(tag \\o ...)"""
        res = []
        for line in self.out.splitlines():
            if line.startswith('"' + tag):
                try:
                    res.append(json.loads(line)[len(tag):])
                except ValueError:
                    res.append(line[1 + len(tag):-1])
        return res


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.work = BUILD / "work" / f"{pid}-{os.getpid()}"
        if self.work.exists():
            shutil.rmtree(self.work)
        self.work.mkdir(parents=True)
        self.t0 = time.time()
        self.rng = random.Random(f"{pid}-{seed}")
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.models, self.assumptions, self.violations, self.known_hit = [], [], [], []
        self.known = load_known(pid)
        self._n = 0

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, *, env=None, workers=8, args=(), timeout=600, expect_ok=True,
            xmx="6g", count=True, label=None, deadlock=True):
        self._n += 1
        meta = self.work / f"tlc{self._n}"
        cfg = cfg or module
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{xmx}", "-Xss32m", "-cp", TLA_CP, "tlc2.TLC",
               "-metadir", str(meta), "-noGenerateSpecTE", "-workers", str(workers)]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += ["-config", f"{cfg}.cfg", *map(str, args), f"{module}.tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise CheckError(f"TLC timed out on {module}/{cfg}")
        r = Tlc(p.stdout, p.returncode, time.time() - t)
        shutil.rmtree(meta, ignore_errors=True)
        if count:
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
        self.models.append({"model": label or f"{module}/{cfg}", "distinct": r.distinct,
                            "generated": r.generated, "wall_s": round(r.wall, 1),
                            "result": "ok" if r.ok else (r.violated or f"rc {r.rc}")})
        if expect_ok and not r.ok:
            sys.stdout.write(r.out[-5000:] + "\n")
            raise CheckError(f"TLC: unexpected result on {module}/{cfg}: {r.violated or r.rc}")
        return r

    def model(self, module, cfg=None, **kw):
        """exhaustively check a model whose properties must hold"""
        return self.tlc(module, cfg, **kw)

    def negative_control(self, module, cfg, expect=None, **kw):
        """a deliberately broken design: TLC has to find the violation (non-vacuity)"""
        r = self.tlc(module, cfg, expect_ok=False, count=False, label=f"{module}/{cfg} (negative control)", **kw)
        if r.ok or not r.violated:
            sys.stdout.write(r.out[-3000:] + "\n")
            raise CheckError(f"negative control {module}/{cfg} was not rejected: {r.violated} rc {r.rc}")
        if expect and expect not in r.violated:
            raise CheckError(f"negative control {module}/{cfg}: expected {expect}, got {r.violated}")
        return r

    def validate(self, module, lines, *, what, cases=None, describe=None, env=None, timeout=600, cfg=None,
                 signature=None):
        """Check recorded lines (list of dicts) against a trace specification.
        The specification prints VERDICT <number of lines> <<rejected line numbers>>.
        Returns the list of rejected line indices (0-based)."""
        if not lines:
            raise CheckError(f"{what}: nothing was recorded")
        self._n += 1
        bad, undecided, start, r = [], [], 0, None
        while start < len(lines):
            path = self.work / f"trace{self._n}-{module}.ndjson"
            with open(path, "w") as f:
                for x in lines[start:]:
                    f.write(json.dumps(x) + "\n")
            e = {"TRACE": path, **(env or {})}
            r = self.tlc(module, cfg, env=e, workers=1, timeout=timeout, count=False, expect_ok=False,
                         label=f"{module} trace: {what}")
            v = r.prints("VERDICT ")
            if r.ok and len(v) == 1:
                n, b = v[0].split(" ", 1)
                if int(n) != len(lines) - start:
                    raise CheckError(f"{module}: read {n} of {len(lines) - start} lines")
                bad += [start + int(i) - 1 for i in re.findall(r"\d+", b)]
                break
            # a line that cannot be evaluated: carry on behind it
            at = re.findall(r"/\\ l = (\d+)", r.out)
            b = re.findall(r"/\\ bad = (<<[^>]*>>)", r.out)
            if r.violated or not at or not b or len(undecided) >= 10:
                sys.stdout.write(r.out[-5000:] + "\n")
                if bad:
                    break
                raise CheckError(f"TLC: unexpected result on {module}: {r.violated or r.rc}")
            bad += [start + int(i) - 1 for i in re.findall(r"\d+", b[-1])]
            k = start + int(at[-1]) - 1
            if "Overflow when computing" in r.out:
                # the sizes of recorded values are chosen such that this does not happen
                bad.append(k)
            else:
                m = re.search(r"Error: .*(?:\n.*){0,3}", r.out)
                undecided.append((k, m.group(0)[:400] if m else ""))
            start = k + 1
        if undecided and not bad:
            raise CheckError(f"{module}: cannot evaluate lines: {undecided}")
        ncases = cases if cases is not None else len(lines)
        self.cov["traces_validated_against_impl"] += ncases
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        if len(self.cov["samples"]) < 6:
            s = json.dumps(lines[self.rng.randrange(len(lines))])
            self.cov["samples"].append(f"{what}: {s[:700]}")
        for i in bad:
            d = describe(i) if describe else lines[i]
            sig = signature(i) if signature else None
            self.violation(f"{what}: line {i + 1} rejected by {module}", {"line": lines[i], "detail": d}, sig)
        if self.violations:
            raise Found()
        return bad

    # ------------------------------------------------------------ harness
    def harness(self, op, cases, timeout=150, env=None):
        """Run harness operation on cases; one JSON result per case, in order.
        A crash or hang of the whole process is recorded as data for the case it happened in."""
        self._n += 1
        results = []
        todo = list(cases)
        while todo:
            cin = self.work / f"h{self._n}-{op}.in"
            cout = self.work / f"h{self._n}-{op}.out"
            with open(cin, "w") as f:
                for c in todo:
                    f.write(json.dumps(c) + "\n")
            if cout.exists():
                cout.unlink()
            e = dict(os.environ)
            e.pop("CRES_LOG", None)
            e.update({k: str(v) for k, v in (env or {}).items()})
            exe = bin_path("cresh")
            crash = None
            try:
                p = subprocess.run([exe, op, str(cin), str(cout)], env=e, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=timeout, cwd=self.work)
                if p.returncode != 0:
                    if p.returncode == 64:
                        sys.stdout.write(p.stdout.decode("utf8", "replace")[-3000:])
                        raise CheckError(f"harness usage error in {op}")
                    crash = f"exit {p.returncode}: " + p.stdout.decode("utf8", "replace")[-1500:]
            except subprocess.TimeoutExpired:
                crash = "hang"
            got = []
            if cout.exists():
                with open(cout) as f:
                    for line in f:
                        if line.endswith("\n"):
                            got.append(json.loads(line))
            got = got[:len(todo)]
            results += got
            todo = todo[len(got):]
            if crash is None and todo:
                raise CheckError(f"harness {op} ended early without an error")
            if crash is not None:
                if not todo:
                    break
                results.append({"crash": crash})
                todo = todo[1:]
                if crash == "hang":
                    results += [{"crash": "skipped"} for _ in todo]
                    break
        return results

    def run(self, args, timeout=120, env=None, cwd=None, stdin=None):
        """run a tool of the package; returns (exit status or None on hang, output)"""
        e = dict(os.environ)
        for k in ("CRES_LOG", "RAYON_NUM_THREADS", "RUST_BACKTRACE"):
            e.pop(k, None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run([str(a) for a in args], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, cwd=cwd or self.work, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return None, "hang"
        return p.returncode, p.stdout.decode("utf8", "replace")

    def tmp(self, name=None):
        self._n += 1
        d = self.work / (name or f"d{self._n}")
        d.mkdir(parents=True, exist_ok=True)
        return d

    # ---------------------------------------------------------- reporting
    def violation(self, what, data=None, signature=None):
        if signature is not None and signature in self.known:
            if signature not in self.known_hit:
                self.known_hit.append(signature)
            return
        self.violations.append((what, data))
        if len(self.violations) <= 20:
            print(f"  rejected: {what}")

    def expect(self, cond, what, data=None, signature=None):
        if not cond:
            self.violation(what, data, signature)
        return cond

    def finish(self):
        wall = time.time() - self.t0
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {**self.cov, "models": self.models}, "assumptions": self.assumptions,
              "wall_s": round(wall, 1), "violations": len(self.violations)}
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
        for sig in self.known_hit:
            print(f"KNOWN-FINDING: property={self.pid} {self.known[sig]}")
        rc = 0
        if self.violations:
            rd = VERIF / "replay"
            rd.mkdir(exist_ok=True)
            path = rd / f"{self.pid}-{self.tier}-{self.seed}.json"
            path.write_text(json.dumps({"property": self.pid, "tier": self.tier, "seed": self.seed,
                                        "rerun": f"VERIF_SEED={self.seed} python3 check.py {self.pid} --tier {self.tier}",
                                        "violations": [{"what": w, "data": d} for w, d in self.violations[:20]],
                                        }, indent=1, default=str) + "\n")
            print(f"VIOLATION property={self.pid} replay={path}")
            rc = 1
        else:
            print(f"{self.pid}: held; {self.cov['states']} states, "
                  f"{self.cov['traces_validated_against_impl']} traces validated, {wall:.0f} s")
        shutil.rmtree(self.work, ignore_errors=True)
        return rc


def load_known(pid):
    res = {}
    p = VERIF / "KNOWN_FINDINGS.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            m = re.match(r"KNOWN-FINDING: property=(\S+) \[([^\]]+)\] (.*)", line)
            if m and m.group(1) == pid:
                res[m.group(2)] = f"[{m.group(2)}] {m.group(3)}"
    return res


def fx(x, scale):
    """fixed point; TLC integers have 32 bits"""
    v = round(float(x) * scale)
    if abs(v) > 2000000000:
        raise CheckError(f"value {x} does not fit at scale {scale}")
    return v
