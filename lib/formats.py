"""Event files: generation, and parsing independent of the code under test.

An event is {"w": [weight tokens], "parts": [(role, pid, (E, px, py, pz) tokens)]},
where the role is "out", "in" or "mid". Only HepMC files have several weights."""
import os, re
from xml.sax.saxutils import escape

EXT = {"hepmc": "hepmc", "lhef": "lhe", "stripper": "xml"}


class BadFile(Exception):
    pass


# ------------------------------------------------------------------ writing
def hepmc_record(ev, n, rng, names=None, unit="GEV", plain=False):
    """one event record, up to the start of the next one"""
    pick = (lambda seq: seq[0]) if plain else rng.choice
    parts = list(ev["parts"])
    # distribute the particles over vertices, the first one may be orphans
    vs, k = [], 0
    while k < len(parts):
        take = len(parts) - k if plain else rng.randrange(1, len(parts) - k + 1)
        chunk = parts[k:k + take]
        norph = 0 if plain else rng.randrange(0, len(chunk) + 1)
        vs.append((norph, chunk))
        k += take
    if not plain and rng.random() < 0.2:
        vs.append((0, []))
    rnd = pick([[], [], ["12"], ["7", "-3"]])
    e = ["E", str(n), "-1", "-1.0000000000000000e+00", "1.1791e-01", "7.5e-03", "0", "-1", str(len(vs)),
         pick(["1", "10001"]), pick(["2", "10002"]), str(len(rnd)), *rnd, str(len(ev["w"])), *ev["w"]]
    lines = [" ".join(e)]
    head = []
    if names is not None:
        head.append(f"N {len(names)} " + " ".join(f'"{x}"' for x in names) + pick(["", " "]))
    if unit:
        head.append(f"U {unit} {pick(['MM', 'CM'])}")
    if not plain:
        if rng.random() < 0.5:
            head.append("C 1.1e+03 2.2e+01")
        if rng.random() < 0.3:
            head.append("H 0 0 0 0 0 0 0 0 0 0 0 0 0")
        if rng.random() < 0.5:
            head.append("F 21 2 1.2e-02 3.4e-01 9.1e+01 2.1 0.5 0 0")
        rng.shuffle(head)
    lines += head
    bar = 10000
    for i, (norph, chunk) in enumerate(vs):
        nw = 0 if plain else rng.randrange(0, 2)
        lines.append(f"V -{i + 1} 0 0 0 0 0 {norph} {len(chunk) - norph} {nw}" + " 1.0" * nw)
        for role, pid, p in chunk:
            bar += 1
            st = {"out": 1, "in": pick([4, 3, -1]), "mid": pick([2, 11, 23, 0])}[role]
            ev.setdefault("st", []).append(st)
            nf = 0 if plain else rng.randrange(0, 3)
            lines.append(f"P {bar} {pid} {p[1]} {p[2]} {p[3]} {p[0]} {pick(['0', '1.3e-1'])} {st} 0 0 "
                         f"{pick(['0', '-3'])} {nf}" + "".join(f" {j + 1} {501 + j}" for j in range(nf)))
    return "\n".join(lines) + "\n"


HEPMC_HEAD = "\nHepMC::Version 2.06.09\nHepMC::IO_GenEvent-START_EVENT_LISTING\n"
HEPMC_FOOT = "HepMC::IO_GenEvent-END_EVENT_LISTING\n"


def trailing(rng, foot, plain):
    """white space after the footer, as editors and other systems leave it"""
    return foot.rstrip("\n") + rng.choice([" \n", "\r\n", "\t\n", "  ", " \n\n", "\n \n"]) if not plain and rng.random() < 0.15 else foot


def hepmc_file(events, rng, names=None, unit="GEV", plain=False, head=None, foot=None, units=None):
    if head is None:
        head = HEPMC_HEAD if plain or rng.random() < 0.7 else "HepMC::Version 2.06.09\nHepMC::IO_GenEvent-START_EVENT_LISTING\n"
    if foot is None:
        foot = HEPMC_FOOT if plain or rng.random() < 0.8 else HEPMC_FOOT + "\n\n"
        foot = trailing(rng, foot, plain)
    # names may be different for each event
    each = names if names and isinstance(names[0], list) else [names] * len(events)
    recs = [hepmc_record(e, i, rng, each[i], units[i] if units else unit, plain) for i, e in enumerate(events)]
    return {"fmt": "hepmc", "head": head, "recs": recs, "foot": foot, "events": events, "unit": unit, "units": units}


def lhef_record(ev, rng, plain=False):
    pick = (lambda seq: seq[0]) if plain else rng.choice
    sp = pick([" ", "  "])
    lines = [pick(["<event>", "<event>", '<event npLO="1">'])]
    lines.append(f"{pick(['', ' '])}{len(ev['parts'])}{sp}81{pick([' ', '  ']) if not plain else ' '}{ev['w'][0]} 9.1e+01 7.8e-03 1.3e-01")
    for role, pid, p in ev["parts"]:
        st = {"out": 1, "in": pick([-1, -9]), "mid": pick([2, -2, 3])}[role]
        ev.setdefault("st", []).append(st)
        lines.append(f"{pick(['', ' ', '    '])}{pid} {st}{sp}1 2 501 0 {p[1]}{sp}{p[2]} {p[3]} {p[0]} 0.0 0. {pick(['9', '-1.'])}.")
    if not plain:
        for x in ("#pdf 1 2 0.1 0.2", "<rwgt>\n<wgt id='1'> 2.0 </wgt>\n</rwgt>", "# a comment", "<mgrwt>\n<rscale> 1 2</rscale>\n</mgrwt>"):
            if rng.random() < 0.25:
                lines.append(x)
    return "\n" + "\n".join(lines) + "\n</event>"


def lhef_file(events, rng, plain=False, foot=None):
    head = '<LesHouchesEvents version="1.0">\n'
    if not plain and rng.random() < 0.6:
        head += "<!--\nsome text > with <event> and </event>\n </init> delimiters\n-->\n" if rng.random() < 0.3 else "<header>\n<x>1</x>\n</header>\n"
    head += "<init>\n 2212 2212 6.5e3 6.5e3 0 0 10 10 3 1\n 1.0 0.1 1.0 1\n</init>"
    if foot is None:
        foot = "\n</LesHouchesEvents>\n" if plain else rng.choice(["\n</LesHouchesEvents>\n", "\n</LesHouchesEvents>", "\n\n</LesHouchesEvents>\n\n"])
        foot = trailing(rng, foot, plain)
    return {"fmt": "lhef", "head": head, "recs": [lhef_record(e, rng, plain) for e in events], "foot": foot, "events": events}


def stripper_record(ev, rng, plain=False):
    """one subevent"""
    pick = (lambda seq: seq[0]) if plain else rng.choice
    s = f'<se w="{ev["w"][0]}" muR="{pick(["1.5", "91.2"])}" muF="2.5">\n'
    for role, pid, p in ev["parts"]:
        st = {"out": 0, "in": -1, "mid": pick([1, 2])}[role]
        ev.setdefault("st", []).append(st)
        mom = ",".join(p)
        s += f'<p id="{st},{pid}">{pick(["", " "])}{mom}{pick(["", " "])}</p>\n'
    s += f'<rw ch="{pick(["0", "1"])}">{pick(["1.0,2.0", "0.5"])}</rw>\n</se>\n'
    return s


def stripper_file(events, rng, name="LO", nevents=None, alpha="2", plain=False, nsub=None, foot=None):
    """every event is one subevent; several subevents may share an <e>"""
    foot = trailing(rng, "</Eventrecord>\n", plain) if foot is None else foot
    recs, body, k = [], [], 0
    while k < len(events):
        n = 1 if plain else min(len(events) - k, rng.choice([1, 1, 2, 3]))
        for j in range(n):
            r = stripper_record(events[k + j], rng, plain)
            body.append([("<e>\n" if j == 0 else ""), r, ("</e>\n" if j == n - 1 else "")])
        k += n
    nev = sum(1 for b in body if b[0]) if nevents is None else nevents
    head = ('<?xml version="1.0" encoding="UTF-8"?>\n'
            f'<Eventrecord nevents="{nev}" nsubevents="{len(events) if nsub is None else nsub}" nreweights="1" as="{alpha}" name="{attribute(name)}">\n')
    # as cres sees it: the next <e> belongs to the record before
    if body:
        head += body[0][0]
        for i, b in enumerate(body):
            recs.append(b[1] + b[2] + (body[i + 1][0] if i + 1 < len(body) else ""))
    return {"fmt": "stripper", "head": head, "recs": recs, "foot": foot, "events": events, "name": name, "nevents": nev}


def attribute(s):
    return escape(s, {'"': "&quot;"})


def normalization(name, xsection, sign="Pos", title=None):
    return (f'<?xml version="1.0" encoding="UTF-8"?>\n<Normalization name="{attribute(title or name)}">\n<XSection>\n'
            f" <XS{sign}> 687.103,0.978277 </XS{sign}>\n <MaxWeight{sign}> 796475 </MaxWeight{sign}>\n"
            f" <TotalEvents{sign}> 488338734 </TotalEvents{sign}>\n <AcceptedEvents{sign}> 493310 </AcceptedEvents{sign}>\n"
            f" <Factor{sign}> 803.98,1.14468 </Factor{sign}>\n</XSection>\n"
            f'<Contribution name="{attribute(name)}">\n<xsection>{xsection},0.5</xsection>\n<rw>\n<rwentry>1.0,2.0</rwentry>\n</rw>\n</Contribution>\n'
            "<NumberOfRejectedEvents>0</NumberOfRejectedEvents>\n</Normalization>\n")


def content(f):
    text = f["head"] + "".join(f["recs"]) + f["foot"]
    if f.get("crlf"):
        text = text.replace("\r\n", "\n").replace("\n", "\r\n")
    return text.encode()


def write_files(ctx, items):
    """items: (path, bytes, compression or None). With a plus sign: several compressed streams one after the other"""
    todo, joined = [], []
    for path, data, how in items:
        if how and how.endswith("+"):
            # cut anywhere
            n = len(data)
            cuts = [0, n // 3 * 2, n] if n % 3 else [0, n // 7, n // 2, n]
            parts = []
            for k, (a, b) in enumerate(zip(cuts, cuts[1:])):
                q = f"{path}.part{k}"
                with open(q, "wb") as f:
                    f.write(data[a:b])
                todo.append({"src": q, "dst": q, "as": how[:-1]})
                parts.append(q)
            joined.append((path, parts))
            continue
        with open(path, "wb") as f:
            f.write(data)
        if how:
            todo.append({"src": str(path), "dst": str(path), "as": how})
    if todo:
        ctx.harness("pack", todo)
    for path, parts in joined:
        with open(path, "wb") as f:
            for q in parts:
                with open(q, "rb") as g:
                    f.write(g.read())
                os.unlink(q)


# ------------------------------------------------------------------ parsing
def parse(fmt, data):
    """{"head", "recs": [{"pre", "w": [tokens], "post", "names"}], "foot"} with text"""
    try:
        s = data.decode()
    except UnicodeDecodeError as e:
        raise BadFile(str(e))
    return {"hepmc": _hepmc, "lhef": _lhef, "stripper": _stripper}[fmt](s)


def _hepmc(s):
    m = re.search(r"^HepMC::IO_GenEvent-END", s, re.M)
    body, foot = (s[:m.start()], s[m.start():]) if m else (s, "")
    starts = [m.start() for m in re.finditer(r"(?m)^E(?= )", body)]
    if not starts:
        return {"head": body, "recs": [], "foot": foot}
    recs = []
    for a, b in zip(starts, starts[1:] + [len(body)]):
        r = body[a:b]
        line, _, rest = r.partition("\n")
        toks = line.split()
        try:
            nr = int(toks[11])
            nw = int(toks[12 + nr])
        except (IndexError, ValueError):
            raise BadFile(f"bad E line {line!r}")
        first = 13 + nr
        if len(toks) != first + nw:
            raise BadFile(f"bad number of weights in {line!r}")
        nm = re.search(r"(?m)^N (\d+)(.*)$", rest)
        names = re.findall(r'"([^"]*)"', nm.group(2)) if nm else []
        # white space after the last weight is not part of it
        recs.append({"pre": " ".join(toks[:first]), "w": toks[first:], "post": line[len(line.rstrip()):] + "\n" + rest, "names": names})
    return {"head": body[:starts[0]], "recs": recs, "foot": foot}


def _lhef(s):
    end = s.find("\n</init>")
    if end < 0:
        raise BadFile("no </init>")
    end += len("\n</init>")
    head, body = s[:end], s[end:]
    recs, pos = [], 0
    while True:
        e = body.find("</event>", pos)
        if e < 0:
            break
        r = body[pos:e + 8]
        m = re.match(r"(\s*<event[^>\n]*>\r?\n\s*\S+\s+\S+\s)(\s*)(\S+)", r)
        if not m:
            raise BadFile(f"bad event {r[:80]!r}")
        recs.append({"pre": " ".join(m.group(1).split()), "w": [m.group(3)], "post": r[m.end():], "names": []})
        pos = e + 8
    return {"head": head, "recs": recs, "foot": " ".join(body[pos:].split())}


def _stripper(s):
    starts = [m.start() for m in re.finditer(r"<se ", s)]
    if not starts:
        m = s.find("</Eventrecord>")
        return {"head": s[:m] if m >= 0 else s, "recs": [], "foot": s[m:] if m >= 0 else ""}
    recs, foot = [], ""
    for a, b in zip(starts, starts[1:] + [len(s)]):
        r = s[a:b]
        m = re.match(r'(<se w=")([^"]*)"', r)
        if not m:
            raise BadFile(f"bad subevent {r[:80]!r}")
        post = r[m.end() - 1:]
        if b == len(s):
            i = post.find("</Eventrecord>")
            if i < 0:
                raise BadFile("unclosed event record")
            post, foot = post[:i], post[i:]
        recs.append({"pre": m.group(1), "w": [m.group(2)], "post": post, "names": []})
    return {"head": s[:starts[0]], "recs": recs, "foot": foot}


class Intern:
    """small integers for pieces of text (or other values), equal if and only if the pieces are"""

    def __init__(self):
        self.ids = {}

    def __call__(self, x):
        return self.ids.setdefault(x, len(self.ids) + 1)


def number(tok, scale=1.0):
    """canonical form of a number"""
    return repr(float(tok) * scale + 0.0)


def projected(fmt, data, intern, scale=1.0):
    """parsed file with texts and numbers as small integers"""
    f = parse(fmt, data) if isinstance(data, (bytes, bytearray)) else data
    t = lambda x: intern(("text", x))
    return {"fmt": fmt, "head": t(f["head"]), "foot": t(f["foot"]),
            "recs": [{"pre": t(r["pre"]), "w": [t(x) for x in r["w"]], "post": t(r["post"]),
                      "v": [intern(("num", _num(x, scale))) for x in r["w"]],
                      "names": [intern(("name", x)) for x in r["names"]]} for r in f["recs"]]}


def _num(tok, scale):
    try:
        return number(tok, scale)
    except ValueError:
        return "bad " + tok


def source(f, intern, scale=1.0, coarse=False):
    """projection of a generated file, with its particles"""
    p = projected(f["fmt"], content(f), intern, scale)
    assert len(p["recs"]) == len(f["events"]), (f["fmt"], len(p["recs"]), len(f["events"]))
    for i, (r, e) in enumerate(zip(p["recs"], f["events"])):
        unit = (f.get("units") or [f.get("unit")] * len(f["events"]))[i]
        r["parts"] = [[st, pid, *(intern(("num", momentum(x, unit, coarse))) for x in q)]
                      for st, (_, pid, q) in zip(e.get("st", []), e["parts"])]
    return p


def momentum(tok, unit=None, coarse=False):
    """in GeV; coarse: to 12 digits, for numbers that went through a conversion of units"""
    x = float(tok) * (1e-3 if unit == "MEV" else 1) + 0.0
    return f"{x:.12g}" if coarse else repr(x)
