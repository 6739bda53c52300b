"""Sets of event files on disk, with what they contain."""
from lib.samples import *

COMPR = [None, None, None, ["gzip", 6], ["gzip", 0], ["gzip", 9], ["bzip2"], ["lz4", 0], ["lz4", 3], ["zstd", 0], ["zstd", 3]]


class FileSet:
    """random files of all formats; names: weights every HepMC file has"""

    def __init__(self, ctx, d, rng, key, nfiles, sizes=None, formats=None, names=None, kind=None, maxparts=4):
        self.files, self.items, self.pairs, self.scale = [], [], [], {}
        for i in range(nfiles):
            fmt = "hepmc" if names else rng.choice(formats or ["hepmc", "lhef", "stripper"])
            n = sizes[i] if sizes is not None else rng.choice([0, 1, 2, 3, 5])
            f = random_file(rng, fmt, n, rng.sample(names, len(names)) if names else None, kind,
                            name=rng.choice(["LO", "nlo x"]), maxparts=maxparts)
            self.files.append(f)
            path = d / f"{key}_{i}.{EXT[fmt]}"
            self.items.append((path, content(f), rng.choice([None, None, "gzip", "bzip2", "zstd", "lz4"] + ([] if rng.random() < 0.9 else ["gzip+", "bzip2+", "zstd+", "lz4+"]))))
            self.pairs.append([str(path), str(d / f"{key}_{i}.out")])
        self.real = list(self.pairs)
        for nm in sorted({f["name"] for f in self.files if f["fmt"] == "stripper"}):
            tot = sum(f["nevents"] for f in self.files if f["fmt"] == "stripper" and f["name"] == nm)
            s = rng.choice([0.25, 0.5, 1.0, 4.0])
            self.scale[nm] = s if tot else 1.0
            path = d / f"{key}_n{len(self.pairs)}.xml"
            self.items.append((path, normalization(nm, repr(s * tot)).encode(), None))
            self.pairs.insert(rng.randrange(len(self.pairs) + 1), [str(path), str(d / f"{key}_n{len(self.pairs)}.nout")])
        self.n = sum(len(f["events"]) for f in self.files)

    def scaleof(self, f):
        return self.scale.get(f.get("name"), 1.0)

    def sources(self, intern, coarse=False):
        return [source(f, intern, self.scaleof(f), coarse) for f in self.files]


def random_weight(rng):
    return rng.choice([rng.uniform(-100, 100), rng.gauss(0, 1) * 10.0 ** rng.randrange(-200, 200), 0.0, 1.0, -3.0,
                       1e22, 1e21, 1e-7, 123456789012345680.0, float(rng.randrange(-5, 5))])
