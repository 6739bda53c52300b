"""C17: malformed input is reported as an error (MalformedEntries, MalformedReader, MalformedTrace)."""
import bz2, gzip, zlib
from concurrent.futures import ThreadPoolExecutor
from lib.common import *
from lib.formats import *
from lib.samples import *

JET = ["-a", "anti-kt", "-R", "0.4", "-p", "5"]
UNNEEDED = {"hepmc": "C 1.1e+03 2.2e+01\n", "lhef": "# x\n", "stripper": "<rw>1</rw>\n"}


# ------------------------------------------------------------------ entries
def tokens(line, start=0):
    return [(m.start() + start, m.end() + start) for m in re.finditer(r"[^\s]+", line)]


def lines_of(rec):
    """(offset, line without end)"""
    pos, res = 0, []
    for x in rec.splitlines(keepends=True):
        res.append((pos, x.rstrip("\n")))
        pos += len(x)
    return res


def hepmc_spans(rec):
    """[(line kind, role, {entry: (start, end)}, end of line)]"""
    res = []
    for pos, line in lines_of(rec):
        t = tokens(line, pos)
        end = pos + len(line)
        k = line[:1]
        if k == "E":
            v = line.split()
            nr = int(v[11])
            nw = int(v[12 + nr])
            d = {"event number": t[1], "scale": t[3], "nvertices": t[8], "nrandom": t[11], "nweights": t[12 + nr], "weight": t[13 + nr]}
            if nw > 1:
                d["named weight"] = t[13 + nr + nw - 1]
            res.append(("E", "", d, end))
        elif k == "N":
            names = [(m.start() + pos, m.end() + pos) for m in re.finditer(r'"[^"]*"', line)]
            res.append(("N", "", {"number of names": t[1], "name": names[-1]}, end))
        elif k == "U":
            res.append(("U", "", {"line start": t[0], "energy unit": t[1], "length unit": t[2]}, end))
        elif k == "V":
            res.append(("V", "", {"line start": t[0], "norphans": t[7], "nout": t[8]}, end))
        elif k == "P":
            role = "out" if line.split()[8] == "1" else "in"
            res.append(("P", role, dict(zip(["line start", "barcode", "id", "px", "py", "pz", "E", "mass", "status", "theta"], t)), end))
    return res


def lhef_spans(rec):
    res = []
    ls = lines_of(rec)
    i = next(i for i, (_, x) in enumerate(ls) if x.startswith("<event")) + 1
    pos, line = ls[i]
    t = tokens(line, pos)
    res.append(("event", "", dict(zip(["NUP", "IDPRUP", "XWGTUP", "SCALUP"], t)), pos + len(line)))
    for pos, line in ls[i + 1:i + 1 + int(line.split()[0])]:
        t = tokens(line, pos)
        role = "out" if line.split()[1] == "1" else "in"
        res.append(("particle", role, dict(zip(["id", "status", "mother", "", "", "", "px", "py", "pz", "E", "mass", "", "spin"], t)), pos + len(line)))
    return res


def stripper_spans(rec):
    res = []
    m = re.search(r'<se w="([^"]*)" muR="([^"]*)"', rec)
    res.append(("se", "", {"weight": m.span(1), "muR": m.span(2)}, m.end(2)))
    for m in re.finditer(r'<p id="([^",]*),([^"]*)">\s*([^,]*),([^,]*),([^,]*),([^<,\s]*)\s*</p>', rec):
        role = "out" if m.group(1) == "0" else "in"
        res.append(("p", role, {"status": m.span(1), "id": m.span(2), "E": m.span(3), "px": m.span(4), "py": m.span(5), "pz": m.span(6)}, m.end(6)))
    return res


SPANS = {"hepmc": hepmc_spans, "lhef": lhef_spans, "stripper": stripper_spans}


def damage_entry(rec, span, end, c, rng):
    """record with the damaged entry"""
    a, b = span
    if c["fault"] == "garbled":
        return rec[:a] + c["text"] + rec[b:]
    if c["fault"] == "more":
        return rec[:a] + str(int(rec[a:b]) + 1000) + rec[b:]
    if c["fmt"] == "stripper":
        # the attribute or the list of numbers ends before the entry
        q = rec.find('"', a) if c["entry"] in ("weight", "muR", "status", "id", "name", "nevents") else rec.find("</p>", a)
        return rec[:a].rstrip(",") + rec[q:]
    return rec[:a].rstrip(" ") + rec[end:]


# ------------------------------------------------------------------ lines
def abstract(fmt, text):
    """the lines of a file, as in MalformedReader"""
    if fmt == "hepmc":
        pos = 0 if text.startswith("E ") else (text.find("\nE ") + 1 or len(text))
        head, body = text[:pos], text[pos:]
        res = []
        for x in body.splitlines(keepends=True):
            if x.startswith("HepMC::"):
                res.append(["F" if x.startswith(FOOT_HEPMC) else "H", 0])
            elif not x.endswith("\n"):
                res.append(["X", 0])
            elif x.startswith("E "):
                res.append(["E", int(x.split()[8])])
            elif x.startswith("V "):
                t = x.split()
                res.append(["V", int(t[7]) + int(t[8])])
            elif x.startswith("P "):
                res.append(["P", 0])
        return res
    if fmt == "lhef":
        i = text.find("\n</init>")
        body = text[i + 8:] if i >= 0 else ""
        res, left, info = [], 0, False
        for x in body.splitlines(keepends=True):
            if "</event>" in x:
                res.append(["C", 0])
                left = 0
            elif info:
                try:
                    left = int(x.split()[0])
                except (IndexError, ValueError):
                    left = 0
                res.append(["O", left] if x.endswith("\n") else ["X", 0])
                info = False
            elif x.startswith("<event"):
                if x.endswith("\n"):
                    info = True
                else:
                    res += [["O", 1], ["X", 0]]
            elif x.startswith("</LesHouchesEvents>"):
                res.append(["F", 0])
            elif left and x.endswith("\n"):
                res.append(["P", 0])
                left -= 1
            elif re.match(r"\s*-?\d+ -?\d", x) and not res[-1:] == [["C", 0]]:
                res.append(["P", 0] if x.endswith("\n") else ["X", 0])
        if info:
            res.append(["O", 1])
        return res
    i = text.find("<se ")
    if i < 0:
        return []
    res = []
    for m in re.finditer(r"<se [^>]*>|<p [^>]*>[^<]*</p>|</se>|</Eventrecord>|<se |<p ", text[i:]):
        k = m.group(0)
        res.append(["F", 0] if k == "</Eventrecord>" else ["Z", 0] if k == "</se>" else ["X", 0] if k == "<se " and False else
                   ["S", 0] if k.startswith("<se") else ["P", 0])
    return res


FOOT_HEPMC = "HepMC::IO_GenEvent-END_EVENT_LISTING"


# ------------------------------------------------------------------ runs
class Job:
    def __init__(self, line, tool, files, args, note):
        self.line, self.tool, self.files, self.args, self.note = line, tool, files, args, note


class Bench:
    def __init__(self, ctx):
        self.ctx, self.jobs = ctx, []
        self.part = ctx.tmp("p") / "part"
        f = ctx.tmp("p") / "s.hepmc"
        evs = [{"w": ["-1"], "parts": [("out", 21, (str(50 + 10 * i), str(50 + 10 * i), "0", "0"))]} for i in range(6)]
        f.write_bytes(content(hepmc_file(evs, ctx.rng, plain=True)))
        rc, log = ctx.run([bin_path("cres-partition"), "-o", str(self.part), "--regions", "2", *JET, str(f)], timeout=60)
        ctx.expect(rc == 0, f"cannot create partition: {log[-500:]}")

    def add(self, line, files, names=(), tool=None, note="", only_cres=False):
        """files: [(name, bytes)]"""
        rng = self.ctx.rng
        tool = tool or ("cres" if only_cres or names else rng.choice(["cres", "cres", "cres", "cres-partition", "cres-classify-events"]))
        self.jobs.append(Job(line, tool, files, names, note))

    def run(self, what, signature="", timeout=900):
        def go(k):
            j = self.jobs[k]
            d = self.ctx.tmp(f"j{k}")
            paths = []
            for name, data in j.files:
                if j.tool != "cres" and name == "n.xml":
                    continue
                (d / name).write_bytes(data)
                paths.append(str(d / name))
            thr = str(1 + k % 3)
            if j.tool == "cres":
                args = [bin_path("cres"), "-o", str(d / "out"), "-t", thr, "-s", ["tree", "naive"][k % 2], *JET]
                if j.args:
                    args += ["--weights", ",".join(j.args)]
            elif j.tool == "cres-partition":
                args = [bin_path("cres-partition"), "-o", str(d / "out"), "--regions", "2", "-t", thr, *JET]
            else:
                args = [bin_path("cres-classify-events"), "-o", str(d / "out"), "-p", str(self.part)]
            j.cmd = args + paths
            rc, j.log = self.ctx.run(j.cmd, timeout=30, cwd=d)
            rc = -1 if rc is None else rc if rc >= 0 else 128 - rc
            m = re.search(r"Error: (.*\S)", j.log)
            shutil.rmtree(d, ignore_errors=True)
            return {**j.line, "rc": rc, "msg": "" if "panicked" in j.log or not m else "error"}

        with ThreadPoolExecutor(8) as ex:
            recs = list(ex.map(go, range(len(self.jobs))))
        self.last = recs
        jobs = self.jobs
        self.jobs = []
        self.ctx.validate("MalformedTrace", recs, what=what, timeout=timeout, signature=signature,
                          describe=lambda i: {"note": jobs[i].note, "cmd": jobs[i].cmd[:1] + jobs[i].cmd[-1:], "log": jobs[i].log[-600:],
                                              "data": [str(d[-1500:]) for _, d in jobs[i].files]})


def base_file(rng, fmt, n=4, names=None, maxparts=4):
    """moderate numbers; the first two weights are negative"""
    f = None
    nw = len(names) if names else 1
    evs = []
    for i in range(n):
        e = random_event(rng, fmt, nw, rng.choice(["int", "dec", "exp"]), maxparts)
        if not e["parts"] or i == 0:
            e["parts"] += [("out", rng.choice([21, 11]), ("90", "60.5", "2", "3")), ("in", 21, ("9", "0", "0", "9"))]
        if i < 2:
            e["w"][0] = "-" + e["w"][0].lstrip("-").replace("0.0", "0.1") if float(e["w"][0]) else "-1"
        if fmt == "lhef" and i and len(e["parts"]) >= 2 and rng.random() < 0.5:
            # without its start tag, the record could be read starting from its first particle
            e["parts"].insert(0, ("out", rng.choice([1, len(e["parts"])]), ("70", "40.5", "2", "3")))
        evs.append(e)
    if fmt == "hepmc":
        return hepmc_file(evs, rng, names, unit="GEV")
    if fmt == "lhef":
        return lhef_file(evs, rng)
    return stripper_file(evs, rng, name="LO")


def with_norm(f, data):
    files = [("a." + EXT[f["fmt"]], data)]
    if f["fmt"] == "stripper":
        files.append(("n.xml", normalization("LO", "12.5").encode()))
    return files


def entry_cases(ctx, bench, cases, rng):
    for c in cases:
        fmt = c["fmt"]
        names = ["Weight", "up", "down"] if fmt == "hepmc" and (c["asked"] or c["line"] == "N" or c["entry"] == "named weight" or rng.random() < 0.3) else None
        ask = ["down"] if c["asked"] else []
        line = {"kind": "entry", "c": c}
        for _ in range(20):
            f = base_file(rng, "stripper" if fmt == "normalization" else fmt, rng.choice([2, 3, 5]), names)
            if fmt == "normalization":
                n = normalization("LO", "12.5")
                if c["entry"] == "xsection":
                    m = re.search(r"<xsection>([^,]*),", n)
                else:
                    m = re.search(r'<Contribution name="([^"]*)"', n)
                # "missing" removes the value, or the element
                if c["fault"] == "missing" and rng.random() < 0.5:
                    new = re.sub(r"<xsection>.*</xsection>\n" if c["entry"] == "xsection" else r' name="LO"(?=>\n<xs)', "", n)
                else:
                    new = n[:m.start(1)] + c["text"] + n[m.end(1):]
                assert new != n
                bench.add(line, [("a.xml", content(f)), ("n.xml", new.encode())], note=str(c), only_cres=True)
                break
            if c["line"] == "Eventrecord":
                m = re.search(r'%s="([^"]*)"' % {"nevents": " nevents", "name": " name"}[c["entry"]], f["head"])
                if c["fault"] == "missing" and rng.random() < 0.5:
                    head = f["head"][:m.start()] + f["head"][m.end():]
                else:
                    head = f["head"][:m.start(1)] + c["text"] + f["head"][m.end(1):]
                bench.add(line, with_norm(f, content({**f, "head": head})), note=str(c), only_cres=True)
                break
            # any record, any fitting line
            todo = [(i, s) for i, r in enumerate(f["recs"]) for s in SPANS[fmt](r)
                    if s[0] == c["line"] and s[1] == c["role"] and c["entry"] in s[2]]
            if not todo:
                continue
            i, s = rng.choice(todo)
            rec = damage_entry(f["recs"][i], s[2][c["entry"]], s[3], c, rng)
            recs = f["recs"][:i] + [rec] + f["recs"][i + 1:]
            bench.add(line, with_norm(f, content({**f, "recs": recs})), ask, note=str(c))
            break
        else:
            raise AssertionError(f"no file for {c}")


def line_cases(ctx, bench, rng, nfiles, ncuts):
    for _ in range(nfiles):
        for fmt in ["hepmc", "lhef", "stripper"]:
            f = base_file(rng, fmt, rng.choice([1, 2, 3]), rng.choice([None, ["a", "b"]]) if fmt == "hepmc" else None)
            text = content(f).decode()
            bench.add({"kind": "lines", "fmt": fmt, "ls": abstract(fmt, text), "intact": True}, with_norm(f, text.encode()), tool="cres", note="intact")
            start = len(f["head"])
            # cut off anywhere inside a record
            ends, pos = [], start
            for r in f["recs"]:
                ends.append((pos, pos + len(r)))
                pos += len(r)
            cuts = [k for a, b in ends for k in range(a + 1, b)]
            if ncuts and len(cuts) > ncuts:
                cuts = rng.sample(cuts, ncuts)
            for k in cuts:
                bench.add({"kind": "lines", "fmt": fmt, "ls": cut_lines(fmt, f, ends, k), "intact": False}, with_norm(f, text[:k].encode()),
                          note=f"cut at {k}")
            # a line lost
            for i, r in enumerate(f["recs"]):
                ls = r.splitlines(keepends=True)
                for j, x in enumerate(ls):
                    opening = x.startswith(("E ", "<event", "<se "))
                    if not x.strip() or (i == 0 and fmt != "lhef" and opening):
                        continue
                    # what is left must not be a valid record by accident
                    if not (opening or x.startswith(("V ", "P ", "</event>", "</se>")) or particle_line(fmt, r, j)):
                        continue
                    rec = "".join(ls[:j] + ls[j + 1:])
                    t = f["head"] + "".join(f["recs"][:i]) + rec + "".join(f["recs"][i + 1:]) + f["foot"]
                    bench.add({"kind": "lines", "fmt": fmt, "ls": lost_line(fmt, f, i, j), "intact": False}, with_norm(f, t.encode()),
                              note=f"lost line {x!r}")


def particle_line(fmt, rec, j):
    ls = rec.splitlines()
    if fmt == "lhef":
        i = next(i for i, x in enumerate(ls) if x.startswith("<event")) + 1
        return i < j <= i + int(ls[i].split()[0])
    return fmt == "stripper" and ls[j].startswith("<p ")


def record_lines(fmt, rec):
    """[(abstract line or None)] for each line of a record"""
    res = []
    for j, x in enumerate(rec.splitlines()):
        if fmt == "hepmc":
            t = x.split()
            res.append(["E", int(t[8])] if t[0] == "E" else ["V", int(t[7]) + int(t[8])] if t[0] == "V" else ["P", 0] if t[0] == "P" else None)
        elif fmt == "lhef":
            if x.startswith("<event"):
                res.append(["O", int(rec.splitlines()[j + 1].split()[0])])
            else:
                res.append(["P", 0] if particle_line(fmt, rec, j) else ["C", 0] if x.startswith("</event>") else None)
        else:
            res.append(["S", 0] if x.startswith("<se ") else ["P", 0] if x.startswith("<p ") else ["Z", 0] if x.startswith("</se>") else None)
    return res


def joined(fmt, recs, foot=True):
    return [x for r in recs for x in r if x] + ([["F", 0]] if foot else [])


def lost_line(fmt, f, i, j):
    recs = [record_lines(fmt, r) for r in f["recs"]]
    del recs[i][j]
    return joined(fmt, recs)


def cut_lines(fmt, f, ends, k):
    i = next(i for i, (a, b) in enumerate(ends) if a < k < b)
    recs = [record_lines(fmt, r) for r in f["recs"][:i]]
    part = f["recs"][i][:k - ends[i][0]]
    full = record_lines(fmt, f["recs"][i])
    n = part.count("\n")
    last = full[:n]
    rest = part.rsplit("\n", 1)[-1]
    if rest:
        # a line is cut off. Closing tags may be complete without the end of the line.
        x = f["recs"][i].splitlines()[n]
        if full[n] and full[n][0] in ("C", "Z") and rest.startswith(("</event>", "</se>")):
            last.append(full[n])
        elif full[n] and full[n][0] in ("E", "O", "S"):
            # the record has started once its tag is complete
            if rest.startswith(("E", "<event", "<se")):
                last += [full[n], ["X", 0]]
            else:
                last.append(["X", 0])
        else:
            last.append(["X", 0])
    return joined(fmt, recs + [last], foot=False)


def stream_cases(ctx, bench, rng, n):
    streams = []
    for _ in range(n):
        for fmt in ["hepmc", "lhef", "stripper"]:
            f = base_file(rng, fmt, rng.choice([1, 2, 5]))
            data = content(f)
            # text that is not UTF-8 inside a record
            i = rng.randrange(len(f["recs"]))
            # without its start tag the first record would be part of the header
            a = len((f["head"] + "".join(f["recs"][:i])).encode()) + rng.randrange(8, len(f["recs"][i]) - 1)
            bad = rng.choice([b"\xff", b"\xc3\x28", b"\xe2\x82", b"\x80"])
            b = data[:a] + bad + data[a:]
            bench.add({"kind": "stream"}, with_norm(f, b), note=f"invalid text {bad} at {a}")
            streams += [(f, data, rng.choice(["gzip", "gzip", "bzip2", "zstd", "lz4"])) for _ in range(3)]
    # compressed streams
    d = ctx.tmp("streams")
    items = []
    for i, (f, data, how) in enumerate(streams):
        a = rng.randrange(1, len(data))
        items += [(d / f"{i}", data, how), (d / f"{i}a", data[:a], how), (d / f"{i}b", data[a:], how)]
    write_files(ctx, items)
    for i, (f, data, how) in enumerate(streams):
        z, a, b = ((d / f"{i}{x}").read_bytes() for x in ("", "a", "b"))
        # cut off, also in the trailer
        k = rng.randrange(7, len(z)) if rng.random() < 0.7 else len(z) - rng.randrange(1, 9)
        bench.add({"kind": "stream"}, with_norm(f, z[:k]), note=f"{how} stream cut off at {k} of {len(z)}")
        # several streams one after the other, the last one cut off. Its start is long enough to be a stream
        k = rng.randrange(8, len(b)) if rng.random() < 0.7 else len(b) - rng.randrange(1, 5)
        bench.add({"kind": "stream"}, with_norm(f, a + b[:k]), note=f"second {how} stream cut off at {k} of {len(b)}")
        # one bit of the content or the checksum changed
        if how != "zstd":
            k = rng.randrange(10, len(z)) if rng.random() < 0.7 else len(z) - rng.randrange(1, 9)
            y = bytearray(z)
            y[k] ^= 1 << rng.randrange(8)
            if not intact(how, bytes(y), data):
                bench.add({"kind": "stream"}, with_norm(f, bytes(y)), note=f"{how} stream with a changed bit in {k} of {len(z)}")


def intact(how, z, data):
    """whether the stream is still intact: not all of its bits have a meaning"""
    try:
        return how in ("gzip", "bzip2") and {"gzip": gzip, "bzip2": bz2}[how].decompress(z) == data
    except (OSError, ValueError, EOFError, zlib.error):
        return False


def run(ctx):
    build()
    rng = ctx.rng
    for c in ["hepmc", "lhef", "stripper"]:
        ctx.model("Malformed", f"Malformed_{c}")
    ctx.negative_control("Malformed", "Malformed_uncounted", "Accepted")
    ctx.negative_control("Malformed", "Malformed_unopened", "Accepted")
    bench = Bench(ctx)
    cases = [json.loads(x) for x in ctx.tlc("MalformedGen", "MalformedGen", count=False, deadlock=False).prints("CASE ")]
    ctx.expect(len(cases) > 500, "too few cases")
    for _ in range(1 if ctx.quick else 8):
        entry_cases(ctx, bench, cases, rng)
        bench.run("damaged entries")
    line_cases(ctx, bench, rng, 3 if ctx.quick else 30, 150 if ctx.quick else 600)
    bench.run("cut off or incomplete records")
    stream_cases(ctx, bench, rng, 40 if ctx.quick else 400)
    bench.run("invalid text and streams")
