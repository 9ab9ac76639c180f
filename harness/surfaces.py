"""Replaying histories of spec/Surface.tla on real surfaces (C22)."""
import copy
from facts import *


def surface_setup(rnd):
    dims = rnd.choice([1, 2, 2, 2, 3, 4])
    span = rnd.choice([3, 3, 9, 13])
    if dims > 2:
        span = min(span, 9)
    k = rnd.randint(2, 6)
    coords = []
    while len(coords) < k:
        if coords and rnd.random() < .5:      # close to another one, or its mirror image
            p = list(rnd.choice(coords))
            q = rnd.random()
            if q < .3 and any(x in (-1, -2) for x in p):      # -1 and -2 have the same hash
                p = [-3 - x if x in (-1, -2) else x for x in p]
            elif q < .5:
                d = rnd.randrange(dims)
                p[d] += rnd.choice([-1, 1])
            elif q < .7:
                p = [-x for x in p]
            elif q < .85:
                p = p[::-1]
            else:
                p = [abs(x) for x in p]
        else:
            p = [rnd.randint(-span, span) for _ in range(dims)]
        if p not in coords or len(set(map(tuple, coords))) >= 2 * span + 1:
            coords.append(p)
    metrics = rnd.choice([["M"], ["E"], ["M", "E"], ["M", "M"], ["E", "E"], ["E", "M"], ["M", "E", "M"]])
    return dict(metrics=metrics, coords=coords)


def surface_case(job):
    ident, case, hist, seed = job
    rnd = random.Random(seed)
    import jinete as jit
    scale = rnd.choice([1, 1, 1, 2.0 ** -12, 2.0 ** -26, 0.5, 2.0 ** 20])
    ints = scale == 1 and rnd.random() < .3
    metric = {"M": jit.DistanceMetric.MANHATTAN, "E": jit.DistanceMetric.EUCLIDEAN}
    out = []

    def num_(x):
        y = x * scale
        return (int(y) if ints or (scale == 1 and rnd.random() < .3) else (-0.0 if y == 0 and rnd.random() < .3 else float(y)))

    def back(x):
        y = x / scale
        return int(y) if y == int(y) else BAD

    def run():
        surfaces = [jit.GeometricSurface(metric[m]) for m in case["metrics"]]
        objs, services = [], []
        for o in hist:
            e = dict(o)
            if o["op"] == "make":
                sf = surfaces[o["sf"] - 1]
                xs = [num_(x) for x in case["coords"][o["c"] - 1]]
                p = sf.get_or_create_position(tuple(xs) if rnd.random() < .5 else xs)
                if rnd.random() < .1:
                    p = copy.deepcopy(p)
                objs.append(p)
                services.append(jit.Service(p, earliest=1.0, latest=2.0))
                e.update(coords=[back(x) for x in p.coordinates], n=len(sf.positions))
            elif o["op"] == "places":
                sf = surfaces[o["sf"] - 1]
                e.update(places=[[back(x) for x in p.coordinates] for p in sf.positions])
            else:
                a, b = objs[o["a"] - 1], objs[o["b"] - 1]
                sa, sb = services[o["a"] - 1], services[o["b"] - 1]
                if o["op"] == "same":
                    e.update(eq=bool(a == b), ne=bool(a != b), keys=len({a, b}), service=bool(sa == sb))
                else:
                    now = rnd.choice([None, 0, 7.5])
                    got = {"distance": lambda: a.distance_to(b), "time": lambda: a.time_to(b, now),
                           "service_distance": lambda: sa.distance_to(sb), "service_time": lambda: sa.time_to(sb, now=now),
                           "surface_distance": lambda: surfaces[o["sf"] - 1].distance(a, b)}[o["op"]]() / scale
                    if case["metrics"][o["sf"] - 1] == "E":
                        e["got"] = int(round(got * 1000)) if abs(got) < 1e6 else BAD
                    else:
                        e["got"] = int(got) if got == got and abs(got) < 1e9 and got == int(got) else BAD
            out.append(e)
        return out
    got = attempt(run)
    if isinstance(got, Raised):
        return fail("surface", got, case=case, hist=hist)
    return dict(rec=dict(id=ident, metrics=case["metrics"], coords=case["coords"], hist=out), count={"answers": len(out)})
