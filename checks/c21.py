"""C21: cell observation and collections (CellCollection, CellCollectionModel, CellTrace, ConcTrace)."""
from lib.conc import *


def programs(ctx, rng):
    """cells and programs: (cells as [size, radius, weight], number of collections, program)"""
    # behaviours of the model, each cell standing for a block of cells
    for cfg in ("gen", "gen3"):
        todo = [json.loads(x) for x in ctx.tlc("CellCollectionModel", f"CellCollectionModel_{cfg}", count=False,
                                               deadlock=False).prints("CASE ")]
        todo = list({json.dumps(p): p for p in todo}.values())
        for p in rng.sample(todo, min(len(todo), 500 if ctx.quick else 15000)):
            cells, prog = [], []
            size = rng.choice([1, 4, 7, 10, 10, 11])
            for op in p:
                if op[0] == 1:
                    prog.append(op)
                    continue
                for _ in range(size):
                    prog.append([0, op[1], len(cells)])
                    cells.append([op[3] * 20 + rng.randrange(20), op[2] * 20 + rng.randrange(20), op[4] * 20 + rng.randrange(20)])
            yield cells, 2 if cfg == "gen" else 3, prog
    for k in range(400 if ctx.quick else 8000):
        n = rng.choice([1, 1, 2, 3, 5, 8])
        m = rng.choice([0, 1, 5, 9, 10, 10, 11, 12, 20, 25, 40, 60])
        style = rng.randrange(4)
        if style == 0:      # many equal cells
            cells = [[rng.choice([1, 2, 3]), rng.choice([0, 1]), rng.choice([-1, 0, 1])] for _ in range(m)]
        elif style == 1:    # growing or shrinking in different ways
            s = [rng.choice([-1, 1]) for _ in range(3)]
            cells = [[1 + (i if s[0] > 0 else m - i), i if s[1] > 0 else m - i, s[2] * i] for i in range(m)]
        elif style == 2:
            cells = [[rng.randrange(1, 30), rng.randrange(1000), rng.randrange(-500, 500)] for _ in range(m)]
        else:               # few outstanding ones
            cells = [[rng.choice([2] * 5 + [50, 51]), rng.choice([1] * 5 + [70, 71]), rng.choice([0] * 5 + [-90, 90])]
                     for _ in range(m)]
        prog, live = [], list(range(n))
        todo = list(range(m))
        while todo or (len(live) > 1 and rng.random() < 0.9):
            if todo and (len(live) == 1 or rng.random() < 0.9):
                prog.append([0, rng.choice(live), todo.pop(0)])
            elif len(live) > 1:
                i, j = rng.sample(live, 2)
                live.remove(j)
                prog.append([1, i, j])
        yield cells, n, prog


def members(k, cell):
    return [1000 * k + 1 + i for i in range(cell[0])]


def collections(ctx, rng):
    todo = list(programs(ctx, rng))
    res = ctx.harness("coll", [{"cells": c, "n": n, "prog": p, "seed": rng.randrange(1000)} for c, n, p in todo])
    lines = []
    for (cells, n, prog), r in zip(todo, res):
        seen = [[] for _ in range(n)]
        for op in prog:
            if op[0] == 0:
                seen[op[1]].append(op[2])
            else:
                seen[op[1]], seen[op[2]] = seen[op[1]] + seen[op[2]], None
        for i, s in enumerate(seen):
            if s is None or (not s and rng.random() < 0.8):
                continue
            kept = (r.get("kept") or [None] * n)[i] or []
            lines.append({"kind": "kept", "err": failure(r), "kept": [x["ev"] for x in kept],
                          "seen": [{"n": cells[k][0], "r": cells[k][1] if cells[k][0] > 1 else 0, "w": cells[k][2], "ev": members(k, cells[k])}
                                   for k in s]})
    ctx.validate("CellTrace", lines, what="cell collections", cases=len(todo),
                 describe=lambda i: (lambda x: f"kept {len(x['kept'])} of {len(x['seen'])} {x['err']}")(lines[i]))


def clusters(rng, n, limit, first):
    """a sample whose cells do not depend on the order of the seeds: far apart
    groups of events with one negative weight each. Returns weights, coordinates
    and the resulting cells; the event ids start from the given number."""
    ev, groups = [], []
    for k in range(n):
        x0 = 20000 * k
        size = rng.choice([1, 2, 2, 3, 4, 6, 9]) if limit else rng.choice([2, 2, 3, 4, 6, 9])
        r = rng.randrange(1, 200) if size > 1 else 0
        a = rng.randrange(1, 200)
        w = rng.randrange(0, 100)
        g = [(-a, x0)]
        for i in range(size - 2):
            g.append((0, x0 + rng.choice([-1, 1]) * rng.randrange(0, r)))
        if limit and (size == 1 or rng.random() < 0.3):
            # incomplete: not enough weight within reach
            w = -rng.randrange(1, a + 1) if size > 1 else -a
            if size > 1:
                g.append((a + w, x0 + rng.choice([-1, 1]) * r))
            g.append((500, x0 + limit + rng.randrange(1, 50)))
        else:
            g.append((a + w, x0 + rng.choice([-1, 1]) * r))
            if rng.random() < 0.5:
                g.append((rng.randrange(0, 100), x0 + r + rng.randrange(1, 50)))
        groups.append((g, size, r, w))
        ev += [(k, i) for i in range(len(g))]
    lone = rng.randrange(3)
    ev += [(None, i) for i in range(lone)]
    rng.shuffle(ev)
    at = {e: first + i for i, e in enumerate(ev)}
    ws = [3 if k is None else groups[k][0][i][0] for k, i in ev]
    xs = [-20000 * (i + 1) if k is None else groups[k][0][i][1] for k, i in ev]
    cells = [{"ev": [at[(k, i)] for i in range(size)], "n": size, "r": r, "w": w}
             for k, (g, size, r, w) in enumerate(groups)]
    return ws, xs, cells


def observers(ctx, rng):
    """the observer of the default resampler, on any number of threads"""
    for threads in (1, 2, 3, 8) if ctx.quick else (1, 2, 3, 4, 6, 8, 16):
        todo = []
        for _ in range(40 if ctx.quick else 500):
            limit = rng.choice([0, 0, 250])
            runs, first = [], 1
            for _ in range(rng.choice([1, 1, 2, 3])):
                ws, xs, cells = clusters(rng, rng.choice([0, 1, 3, 8, 9, 10, 11, 15, 40]), limit, first)
                if not ws:
                    continue
                runs.append((ws, xs, cells, first))
                first += len(ws)
            todo.append((limit, runs))
        res = ctx.harness("obs", [{"max": limit or "none", "search": rng.choice(["tree", "naive"]),
                                   "runs": [{"w": r[0], "x": r[1], "id": r[3]} for r in runs]} for limit, runs in todo],
                          env={"RAYON_NUM_THREADS": threads})
        lines = []
        for (_, runs), r in zip(todo, res):
            seen = []
            for k, run in enumerate(runs):
                seen = seen + run[2]
                kept = r["kept"][k] if "kept" in r else []
                lines.append({"kind": "kept", "err": failure(r), "kept": [x["ev"] for x in kept], "seen": seen})
        ctx.validate("CellTrace", lines, what=f"collected cells of runs with {threads} threads", cases=len(todo),
                     describe=lambda i: (lambda x: f"kept {len(x['kept'])} of {len(x['seen'])} {x['err']}")(lines[i]))


def observed(ctx, rng):
    """what any observer sees"""
    todo = []
    for _ in range(200 if ctx.quick else 4000):
        limit = rng.choice([0, 0, 250])
        todo.append((limit, clusters(rng, rng.choice([1, 2, 10, 30, 60]), limit, 0)))
    res = ctx.harness("resample", [{"w": ws, "x": [[x] for x in xs], "max": limit or "none", "search": rng.choice(["tree", "naive"]),
                                    "strategy": rng.choice(["next", "most", "least", "default"]),
                                    "threads": rng.choice([1, 2, 3, 8])} for limit, (ws, xs, _) in todo])
    lines = []
    for (_, (_, _, cells)), r in zip(todo, res):
        obs = [{"ev": c["m"], "n": c["n"], "r": ival(c["r"]), "w": ival(c["s"])} for c in r.get("cells", [])]
        lines.append({"kind": "seen", "err": failure(r), "finished": r.get("finished", 0), "observed": obs, "cells": cells})
    ctx.validate("CellTrace", lines, what="observed cells",
                 describe=lambda i: (lambda x: f"{len(x['observed'])} of {len(x['cells'])} cells, finished {x['finished']} {x['err']}")(lines[i]))


def run(ctx):
    build(bins=False)
    rng = ctx.rng
    ctx.model("CellCollectionModel", "CellCollectionModel_ok", deadlock=False)
    if not ctx.quick:
        ctx.model("CellCollectionModel", "CellCollectionModel_ok2", deadlock=False)
    for v, inv in (("noshift", "RightMembers"), ("smallest", "Largest"), ("first", "Largest"), ("counted", "RightMembers"),
                   ("copied", "Once")):
        ctx.negative_control("CellCollectionModel", f"CellCollectionModel_{v}", inv, deadlock=False)
    collections(ctx, rng)
    observers(ctx, rng)
    observed(ctx, rng)
    # attempts that have to be repeated because of other threads are not observed
    ctx.validate("ConcTrace", gated(ctx, 80 if ctx.quick else 1500), what="cells observed in replayed schedules")
    ctx.validate("ConcTrace", free(ctx, 300 if ctx.quick else 6000), what="cells observed by concurrent threads")
