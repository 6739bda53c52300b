"""Projections and generators shared by the checks."""


def failure(r):
    """name of the failure of a harness operation, or the empty string"""
    for k in ("crash", "panic", "err"):
        if k in r:
            return f"{k}: {r[k]}"[:400] or k
    return ""


def ival(x, bad=-999999999):
    """integers as they are, anything else as a value no specification admits"""
    return x if isinstance(x, int) and not isinstance(x, bool) and abs(x) < 2 ** 31 else bad


def vary(rng, cases, share=0.6, wexp=(-400, -200, -70, -40, -25, 20, 50, 300), dexp=(-300, -60, -25, 17, 21, 30, 70, 300)):
    """the same problems in other units: exact powers of two, which the harness takes out again"""
    for c in cases:
        if rng.random() < share:
            if wexp:
                c["wexp"] = rng.choice(wexp)
            if dexp:
                c["dexp"] = rng.choice(dexp)
    return cases


def graph_metric(rng, n, top=5):
    """shortest paths: a metric with many ties"""
    inf = 10 ** 6
    d = [[0 if i == j else inf for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(i):
            if rng.random() < 0.5 or j == i - 1:
                d[i][j] = d[j][i] = rng.randrange(top + 1)
    for k in range(n):
        for i in range(n):
            for j in range(n):
                d[i][j] = min(d[i][j], d[i][k] + d[k][j])
    return d
