"""C26: one run treats every event once, under its id, and propagates every error (Pipeline, PipelineModel, PipeTrace),
also for samples of many thousand events read and written by the command-line program (LargeTrace)."""
from lib.common import *
from lib.nets import *
from lib.large import large_runs

RES = {"ok": "ok", "io:read": "read", "io:update": "update", "convert:convert": "convert", "cluster:cluster": "cluster",
       "resample:resample": "resample", "unweight:unweight": "unweight", "id:77": "id"}


def run(ctx):
    build()
    rng = ctx.rng
    ctx.model("PipelineModel", "PipelineModel_ok" if ctx.quick else "PipelineModel_ok3")
    ctx.negative_control("PipelineModel", "PipelineModel_order", "Right")
    ctx.negative_control("PipelineModel", "PipelineModel_late")
    gen = [json.loads(x) for x in ctx.tlc("PipeGen", count=False, deadlock=False).prints("CASE ")]
    cfgs = gen if not ctx.quick else rng.sample(gen, min(len(gen), 1500))

    def more(n, nfail):
        pos = range(1, n + 1)
        fail = [rng.choice([[s, rng.randrange(1, n + 1)] for s in ("convert", "cluster", "id")]
                           + [["read", rng.randrange(1, n + 2)]]
                           + [[s, 0] for s in ("resample", "unweight", "update")]) for _ in range(nfail)]
        return {"n": n, "empty": [i for i in pos if rng.random() < 0.15], "drop": [i for i in pos if rng.random() < 0.2],
                "fail": fail}

    for _ in range(150 if ctx.quick else 1500):
        cfgs.append(more(rng.randrange(4, 40), rng.choice([0, 0, 1, 1, 2])))
    for _ in range(4 if ctx.quick else 30):
        cfgs.append(more(rng.choice([200, 500]), rng.choice([0, 1])))
    cases, lines = [], []
    for g in cfgs:
        n = g["n"]
        g = dict(g, drop=[i for i in g["drop"] if i not in g["empty"]],
                 # an empty event has no identity that its clustering could recognise;
                 # one failing position per stage
                 fail=[f for f in g["fail"] if not (f[0] == "cluster" and f[1] in g["empty"])])
        g["fail"] = list({f[0]: f for f in g["fail"]}.values())
        nw = rng.choice([1, 1, 2, 3])
        w = [[rng.randrange(-50, 50) for _ in range(nw)] for _ in range(n)]
        fail = {}
        for s, i in g["fail"]:
            fail[s] = i - 1 if i else True
        full = n - len(g["empty"])
        perm = lambda: rng.choice([list(range(full)), list(reversed(range(full))), rng.sample(range(full), full)])
        delay = lambda: [rng.choice([0, 0, 0, 100, 400, 1500]) if n < 50 else 0 for _ in range(n)]
        cases.append({"w": w, "empty": [i - 1 for i in g["empty"]], "delay": delay(), "cdelay": delay(), "fail": fail,
                      "rperm": perm(), "uperm": perm(), "drop": [i - 1 for i in g["drop"]],
                      "threads": rng.choice([1, 2, 4, 8]), "hint": rng.choice([0, n, n, max(0, n - 1), n + 3])})
        lines.append({**g, "w": w, "radd": 100, "uadd": 10000})
    res = ctx.harness("pipe", cases, timeout=300)
    for line, r in zip(lines, res):
        f = failure(r)
        line["res"] = f or RES.get(r["res"][0], r["res"][0])
        log = []
        for e in r.get("log", []):
            a, x = e
            if a == "read":
                log.append({"a": "readfail"} if x == "err" else {"a": "read", "i": x + 1})
            elif a in ("convert", "cluster"):
                log.append({"a": a, "i": x + 1})
            elif a in ("resample", "unweight"):
                log.append({"a": a, "ev": [[v[0] + 1, v[1] + 1, [ival(y) for y in v[2]]] for v in x]})
            else:
                log.append({"a": a, "w": [[ival(y) for y in v] for v in x]} if a == "update" else {"a": a})
        line["log"] = log
    ctx.validate("PipeTrace", lines, what="run with logging components", timeout=850)
    sizes = [(1000, 100), (34000, 6000)]
    large_runs(ctx, rng, sizes if ctx.quick else sizes * 3 + [(130000, 20000)], "large sample read and written by cres")
