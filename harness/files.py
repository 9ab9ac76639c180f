"""Files written by the harness and loaded by the real loaders (C18, C19); judged by spec/LoaderTrace.tla."""
import glob
from pathlib import Path
from surfaces import *


def cordeau_rows(rnd, K=1000):
    """Rows in thousandths (or another fraction) of a unit."""
    big = rnd.random() < .2
    n, m = rnd.randint(0, 24 if big else 4), rnd.randint(0, 13 if big else 3)
    num = lambda a, b: (rnd.randint(a * K, b * K) if rnd.random() < .5 else rnd.randint(a, b) * K)
    rows = [[m * K, 2 * n * K, num(1, 900), num(1, 9), num(1, 200)],
            [0, num(-10, 10), num(-10, 10), num(0, 3), 0, 0, 1440 * K]]
    sizes = [rnd.randint(1, 6) * K if rnd.random() < .8 else num(1, 6) for _ in range(n)]
    for half in (0, 1):
        for k in range(n):
            e = num(0, 900)
            rows.append([(1 + k + half * n) * K, num(-10, 10), num(-10, 10), num(0, 12), (1 - 2 * half) * sizes[k], e, e + num(0, 400)])
    if rnd.random() < .4:        # the end depot, and others
        for k in range(rnd.choice([1, 1, 2, 3])):
            rows.append([(2 * n + 1 + k) * K, rows[1][1] + k * K, rows[1][2], 0, 0, 0, (600 + k) * K])
    kind = rnd.random()
    if kind < .2:                # numbered otherwise: from one, or in any order
        names = [r[0] + K for r in rows[1:]] if kind < .1 else rnd.sample([r[0] for r in rows[1:]], len(rows) - 1)
        for row, name in zip(rows[1:], names):
            row[0] = name
    return rows


def hashcode_rows(rnd):
    big = rnd.random() < .2
    n, m = rnd.randint(0, 40 if big else 5), rnd.randint(0, 14 if big else 4)
    R, C, T = rnd.choice([(3, 4, 10), (10, 12, 90), (1000, 800, 25000), (100000, 90000, 90000000)])
    rows = [[R, C, m, n, rnd.choice([0, 1, 2, 25, 1000]), T]]
    for _ in range(n):
        a, b, x, y = rnd.randint(0, R), rnd.randint(0, C), rnd.randint(0, R), rnd.randint(0, C)
        e = rnd.randint(0, T)
        if len(rows) > 1 and rnd.random() < .25:      # the same ride again, or nearly
            rows.append(list(rnd.choice(rows[1:])))
            if rnd.random() < .4:
                rows[-1][rnd.randrange(4)] = rnd.randint(0, min(R, C))
            continue
        rows.append([a, b, x, y, e, min(T, e + rnd.randint(0, R + C)) if rnd.random() < .9 else rnd.randint(0, T + T // 2)])
    return rows


def text_of(rnd, rows, one):
    """Writes the rows with arbitrary spacing and number formats."""
    style = rnd.choice(["plain", "plain", "tabs", "padded", "mixed"])
    crlf, last = rnd.random() < .1, rnd.random() < .8

    fine = "%%.%df" % max(3, len(str(one)) - 1)

    def word(x):
        v = x / one
        whole = x % one == 0
        if style == "mixed":
            opts = [fine % v, repr(v)] + (["%d" % (x // one), "%d." % (x // one)] if whole else [])
            if x > 0:
                opts.append("+" + fine % v)
            if whole:
                opts.append("%.9e" % v)
            return rnd.choice(opts)
        return "%d" % (x // one) if whole and (one == 1 or rnd.random() < .5) else fine % v

    def line(row):
        sep = lambda: {"plain": " ", "tabs": "\t", "padded": "   "}.get(style) or rnd.choice([" ", "\t", "  ", " \t "])
        s = word(row[0])
        for x in row[1:]:
            s += sep() + word(x)
        if style in ("padded", "mixed"):
            s = " " * rnd.randint(0, 3) + s + " " * rnd.randint(0, 2)
        return s
    nl = "\r\n" if crlf else "\n"
    return nl.join(line(r) for r in rows) + (nl if last else "")


def parse_rows(path, one):
    rows = []
    for l in open(path):
        if l.strip():
            rows.append([int(round(float(x) * one)) for x in l.split()])
    return rows


def loaded(w_path, fmt, one, rnd, rows, ident):
    import jinete as jit

    def back(x):
        x = float(x)
        if x != x:
            return BAD
        if abs(x) >= INF / one:
            return INF if x > 0 else -INF
        y = x * one
        return int(round(y)) if abs(y - round(y)) < 1e-4 else BAD

    def dist(x):
        return int(round(float(x) * min(one, 1000))) if abs(float(x)) * one < 2e9 else BAD
    P = lambda p: [back(c) for c in p.coordinates]

    def S(s, a):
        return {a + "e": back(s.earliest), a + "l": back(s.latest), a + "d": back(s.duration), a: P(s.position)}
    kw = {}
    if fmt == "hashcode":
        kw["formatter_cls"] = jit.HashCodeLoaderFormatter
    elif rnd.random() < .5:
        kw["formatter_cls"] = jit.CordeauLaporteLoaderFormatter
    loader = jit.FileLoader(file_path=w_path if rnd.random() < .7 else str(w_path), **kw)
    parts = ["fleet", "job", "surface"]
    rnd.shuffle(parts)
    first = {p: getattr(loader, p) for p in parts}
    fleet, job, surface = first["fleet"], first["job"], first["surface"]
    key = lambda d: (int(d["id"]) if d["id"].lstrip("-").isdigit() else 10 ** 9, d["id"])
    depot = next(iter(fleet.vehicles)).destination.position if fleet.vehicles else None
    vs = sorted((dict(id=str(v.identifier), **S(v.origin, "o"), **S(v.destination, "d"), cap=back(v.capacity), to=back(v.timeout))
                 for v in fleet.vehicles), key=key)
    ts = sorted((dict(id=str(t.identifier), **S(t.origin, "o"), **S(t.destination, "d"), cap=back(t.capacity), to=back(t.timeout),
                      bonus=back(t.on_time_bonus), dist=dist(t.distance),
                      depot=dist(depot.distance_to(t.origin.position)) if depot is not None else 0) for t in job.trips), key=key)
    surfaces = {id(p.surface) for t in job.trips for p in (t.origin.position, t.destination.position)} | \
               {id(p.surface) for v in fleet.vehicles for p in (v.origin.position, v.destination.position)} | {id(surface)}
    again = sorted(t.identifier for t in loader.job.trips) == sorted(t.identifier for t in job.trips) and \
        len(loader.fleet.vehicles) == len(fleet.vehicles)
    return dict(id=ident, format=fmt, one=one, rows=rows, vehicles=vs, trips=ts, objective=type(job.objective).__name__,
                one_surface=len(surfaces) == 1, again=again)


def loader_case(job):
    ident, seed, fmt, given = job
    rnd = case_rnd("loader", fmt, seed)
    one = 1000 if fmt == "cordeau" else 1
    if given is not None:
        rows = parse_rows(given, one)
        got = attempt(lambda: loaded(Path(given), fmt, one, rnd, rows, ident))
        return fail("loader", got, file=given) if isinstance(got, Raised) else dict(rec=got, count={"files_" + fmt: 1})
    if fmt == "cordeau" and rnd.random() < .4:
        one = 100000
    rows = cordeau_rows(rnd, one) if fmt == "cordeau" else hashcode_rows(rnd)
    os.makedirs(WORK, exist_ok=True)
    fd, name = tempfile.mkstemp(suffix=".txt", dir=WORK)
    try:
        text = text_of(rnd, rows, one)
        with os.fdopen(fd, "w", newline="") as f:
            f.write(text)
        got = attempt(lambda: loaded(Path(name), fmt, one, rnd, rows, ident))
    finally:
        os.unlink(name)
    if isinstance(got, Raised):
        return fail("loader", got, text=text)
    return dict(rec=got, count={"files_" + fmt: 1, "rows": len(rows)})
