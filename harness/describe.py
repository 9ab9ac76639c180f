"""What real objects say about themselves (C25); judged by spec/DescribeTrace.tla."""
from ends import *


def named(text, tid):
    """Reads the name of a stop: pickups, then deliveries."""
    m = re.match(r"^\[(.*)\]$", text)
    parts = [x for x in m.group(1).split("|") if x] if m else []
    P = [tid.get(x[1:], 0) for x in parts if x[0] == "P"]
    D = [tid.get(x[1:], 0) for x in parts if x[0] == "D"]
    return dict(P=P, D=D, exact=bool(m) and len(P) + len(D) == len(parts) and [x[0] for x in parts] == ["P"] * len(P) + ["D"] * len(D))


def describe_case(job):
    ident, seed = job
    rnd = case_rnd("C25", seed)
    random.seed(rnd.random())
    m, n = size(rnd, rnd.choice([1, 1, 2, 3]), 5, 14), size(rnd, rnd.choice([0, 1, 2, 3, 4, 5]))
    inst = Gen(rnd).instance(n=n, m=m, easy=rnd.random() < .5, fine=rnd.random() < .3)
    obj = rnd.choice(OBJS)
    w = World(inst, obj)
    jit = w.jit
    tid = {t.identifier: k + 1 for k, t in enumerate(w.trips)}

    def ask(r):
        for f in rnd.sample([lambda: r.identifier, lambda: dict(r), lambda: repr(r), lambda: [dict(s) for s in r.stops],
                             lambda: [s.identifier for s in r.stops], lambda: [repr(x) for x in r.planned_trips], lambda: r.feasible],
                            rnd.randint(1, 3)):
            f()

    def run():
        if rnd.random() < .4 and n < 13:
            res = jit.InsertionAlgorithm(fleet=w.fleet, job=w.job, **random_insertion_kwargs(rnd, jit)).optimize()
        else:
            left, routes = list(range(1, n + 1)), []
            rnd.shuffle(left)
            for v in range(1, m + 1):
                k = rnd.randint(0, len(left)) if rnd.random() < .8 else 0
                routes.append(w.build(random_route(rnd, inst, v, left[:k], merge=.5, pins=rnd.choice([0, .3]))))
                left = left[k:]
            if rnd.random() < .7:        # described, changed, and described again
                for r in routes:
                    rnd.random() < .7 and ask(r)
                    for _ in range(rnd.choice([0, 1, 1, 2])):
                        on = list(r.trips)
                        if left and (not on or rnd.random() < .6):
                            x = w.trips[left.pop() - 1]
                            a = rnd.randrange(len(r.stops) - 1)
                            b = rnd.randrange(a, len(r.stops) - 1)
                            up = jit.Stop(r.vehicle, x.origin_position, r.stops[a])
                            down = jit.Stop(r.vehicle, x.destination_position, up if a == b else r.stops[b])
                            r.append_planned_trip(jit.PlannedTrip(r.vehicle, x, up, down))
                        elif on:
                            x = rnd.choice(on)
                            left.append(tid[x.identifier])
                            r.remove_trip(x)
                        rnd.random() < .5 and ask(r)
            res = w.result(routes)
        routes = list(res.routes)
        contents = [w.content(r, "own") for r in routes]
        early = rnd.random() < .5        # before anything else was asked, or after
        full = lambda: [w.full(r) for r in routes]
        before = full() if early else None
        at = lambda p: [tick(c) for c in p.coordinates]

        def service(pairs):
            d = dict(pairs)
            return dict(p=at(d["position"]), e=tick(d["earliest"]), l=tick(d["latest"]), d=tick(d["duration"]))

        def trip(t):
            d = dict(t)
            return dict(name=d["identifier"], o=service(d["origin"]), d=service(d["destination"]), bonus=tick(d["on_time_bonus"]),
                        cap=tick(d["capacity"]), to=tick(d["timeout"]))

        def vehicle(v):
            d = dict(v)
            return dict(name=d["identifier"], o=service(d["origin"]), d=service(d["destination"]), cap=tick(d["capacity"]),
                        to=tick(d["timeout"]))
        told = []
        for r in routes:
            d = dict(r)
            ids = {id(s): k + 1 for k, s in enumerate(r.stops)}
            each = [dict(name=named(dict(s)["identifier"], tid), p=at(dict(s)["position"])) for s in r.stops]
            rides = []
            for x in r.planned_trips:
                y = dict(x)
                rides.append(dict(t=y["trip_identifier"], pickup=ids.get(id(y["pickup"]), 0), delivery=ids.get(id(y["delivery"]), 0),
                                  ok=bool(y["feasible"]), vehicle=x.vehicle_identifier))
            told.append(dict(vehicle=d["vehicle_identifier"], stops=[named(x, tid) for x in d["stops_identifiers"]], each=each, rides=rides,
                             joined=r.identifier == "|".join(s.identifier for s in r.stops)))
        p, q = dict(res.planning), dict(res)
        plan = p["uuid"] == res.planning.uuid and sorted(p["route_identifiers"]) == sorted(r.identifier for r in routes)
        result = q["planning_uuid"] == res.planning.uuid and q["algorithm_name"] == type(res.algorithm).__name__ and \
            sorted(dict(q["fleet_uuid"])["vehicle_identifiers"]) == sorted(v.identifier for v in w.vehs) and \
            sorted(dict(q["job"])["trip_identifiers"]) == sorted(tid)
        things = [w.surface, w.fleet, w.job, res, res.planning] + w.vehs + w.trips + [t.origin for t in w.trips] + \
            [t.origin_position for t in w.trips] + routes + [s for r in routes for s in r.stops] + \
            [x for r in routes for x in r.planned_trips]
        printed = True
        for x in rnd.sample(things, min(len(things), 12)):
            text = repr(x)
            printed = printed and type(x).__name__ in text and all(str(v) in text for v in dict(x).values())
            str(x)
        jd = dict(w.job)
        rec = dict(id=ident, inst=inst, obj=obj, routes=contents, told=told, trips=[trip(t) for t in w.trips],
                   vehicles=[vehicle(v) for v in w.vehs], fleet=list(dict(w.fleet)["vehicle_identifiers"]),
                   job=dict(names=list(jd["trip_identifiers"]), objective=type(jd["objective"]).__name__),
                   places=[[tick(c) for c in x] for x in dict(w.surface)["position_coordinates"]], plan=plan, result=result,
                   printed=printed)
        after = full()
        fresh = [w.build(c) for c in contents]      # the same plan, about which nothing was asked before
        alike = [w.full(r) for r in fresh]
        rec["unchanged"] = (before is None or after == before) and [a["t"] for a in after] == [a["t"] for a in alike] and \
            [a["ok"] for a in after] == [a["ok"] for a in alike]
        return rec
    got = attempt(run)
    if isinstance(got, Raised):
        return fail("description", got, inst=inst)
    return dict(rec=got, count={"described_stops": sum(len(r["s"]) for r in got["routes"])})
