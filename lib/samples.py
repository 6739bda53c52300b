"""Random event samples."""
import copy, random, struct
from lib.formats import *

# names of many weights, as produced by variations of scales and parton distributions
MANY = [f"MUR{i}_PDF{261000 + k}" for k in range(20) for i in range(3)]
PIDS = [1, -2, 5, 21, 11, -13, 12, 22, 211, 2212, 23, 6, 1000022, -24, 9221132, 130]
NAMES = ["Weight", "MUR1_MUF2", "w with space", "0", "PDF<3>", "E", "N 2"]


def token(rng, kind):
    if kind == "int":
        return str(rng.randrange(-1000, 1000))
    if kind == "dec":
        return f"{rng.randrange(-10 ** 6, 10 ** 6) / 1000}"
    if kind == "exp":
        return f"{rng.uniform(-1, 1):.16e}".replace("e", rng.choice("eE"))
    x = rng.choice([rng.uniform(-500, 500), rng.gauss(0, 1) * 10.0 ** rng.randrange(-290, 290),
                    *([] if kind == "weight" else [5e-324, 1.7976931348623157e308]), 0.1, 1e22, 123456789.0, -0.5])
    return rng.choice([repr(x), f"{x:.17g}", f"{x:.17e}"])


def random_event(rng, fmt, nw=1, kind=None, maxparts=6):
    kind = kind or rng.choice(["int", "dec", "exp", "any"])
    n = rng.randrange(0, maxparts + 1)
    parts = []
    for _ in range(n):
        p = tuple(token(rng, kind) for _ in range(4))
        parts.append((rng.choice(["out", "out", "in", "mid"]), rng.choice(PIDS), p))
    wk = rng.choice(["int", "dec", "exp", "weight"]) if kind != "dec" else "dec"
    return {"w": [token(rng, wk) for _ in range(nw)], "parts": parts}


def random_file(rng, fmt, n, names=None, kind=None, plain=False, name="LO", maxparts=6):
    """names: of the weights (HepMC only)"""
    if fmt == "hepmc":
        nw = 1
        if names is not None:
            nw = len(names)
        elif rng.random() < 0.3:
            nw = rng.randrange(1, 4)
        evs = [random_event(rng, fmt, nw, kind, maxparts) for _ in range(n)]
        units = None
        if kind == "dec":
            units = [rng.choice(["GEV", "MEV", None]) for _ in range(n)]
        f = hepmc_file(evs, rng, names, unit=rng.choice(["GEV", None]), plain=plain, units=units)
    else:
        evs = [random_event(rng, fmt, 1, kind, maxparts) for _ in range(n)]
        f = lhef_file(evs, rng, plain) if fmt == "lhef" else stripper_file(evs, rng, name=name, plain=plain)
    # line ends of other systems
    f["crlf"] = not plain and rng.random() < 0.06
    return f
