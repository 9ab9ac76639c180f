"""Recording values, scores, derived data and statistics of the library (C14, C15, C16)."""
from routes import *


def value(obj, v):
    v = list(v)
    return [int(v[0]) if v and v[0] == int(v[0]) else BAD] + [tick(x) for x in v[1:]] if obj == "DialARide" \
        else [tick(x) for x in v]


def contents_for(rnd, inst, m=None, merge=.5, pins=.3, again=.2):
    """Contents of a few routes; a trip may be on several of them (they are separate plans' routes then)."""
    n, nv = len(inst["trips"]), len(inst["veh"])
    out = []
    for v in range(1, nv + 1):
        ts = [t for t in range(1, n + 1) if rnd.random() < .5]
        out.append(random_route(rnd, inst, v, ts, merge=merge, pins=rnd.choice([0, pins])))
    if rnd.random() < again:
        out.append(copy.deepcopy(rnd.choice(out)))
    return out


def aged(rnd, inst, contents):
    """The same routes with other trips on them: what they were before the content that is judged."""
    out = []
    for c in contents:
        n = len(inst["trips"])
        ts = [t for t in range(1, n + 1) if rnd.random() < .5]
        out.append(random_route(rnd, inst, c["v"], ts, merge=.3, pins=rnd.choice([0, .2])))
    return out


def renew(w, routes, contents):
    """Gives route objects, which were asked before, new stops."""
    for r, c in zip(routes, contents):
        r.stops = w.build(c).stops
        r.flush()


def on_time(rnd, inst, contents):
    """Makes some pickups end exactly at (or next to) the earliest time of their trip, where the bonus is given."""
    for R in contents:
        S = sched(inst, R)
        for k, s in enumerate(R["s"]):
            for t in s["P"]:
                T = inst["trips"][t - 1]
                if rnd.random() < .5 and T["od"] == 0:
                    e = max(0, S[k]["dep"] + rnd.choice([0, 0, 0, 1, -1, 4, UNIT]))
                    if rnd.random() < .7:
                        T["oe"] = e
                    else:      # the earliest time follows from the delivery and the ride limit
                        if T["to"] >= INF:
                            T["to"] = inst["dist"][T["o"] - 1][T["d"] - 1] + rnd.choice([0, 2, 9]) * UNIT
                        T.update(oe=max(0, e - rnd.choice([1, 4]) * UNIT), de=e + T["to"], dl=max(T["dl"], e + T["to"]))


def objective_case(job):
    ident, seed = job
    rnd = case_rnd("C14", seed)
    obj = rnd.choice(OBJS)
    inst = Gen(rnd).instance(n=size(rnd, rnd.randint(1, 5)), m=size(rnd, rnd.randint(1, 3), 5, 14), fine=rnd.random() < .3, easy=rnd.random() < .5)
    contents = contents_for(rnd, inst)
    if obj == "HashCode":
        on_time(rnd, inst, contents)
    w = World(inst, obj)
    jit = w.jit

    def run():
        o = w.job.objective
        f = o.optimization_function
        history = rnd.choice(["none", "routes", "plan", "removed"])
        routes = [w.build(c) for c in (contents if history == "none" else aged(rnd, inst, contents))]
        plan = jit.Planning(set(routes))
        res = w.result(routes)
        if history != "none":      # the values were asked for when the routes or the plan were others
            for x in routes + [plan, res] + [s for r in routes for s in r.stops] + [p for r in routes for p in r.planned_trips]:
                f(x)
            res.optimization_value
            if history == "routes":
                renew(w, routes, contents)
            else:
                routes = [w.build(c) for c in contents]
                plan.routes = set(routes)
                res.planning.routes = set(routes)
        dim = 2 if obj == "DialARide" else 1
        picks = []
        for _ in range(rnd.randint(2, 5)):
            kind = rnd.choice(["values", "values", "routes", "plans", "results"])
            n = rnd.choice([0, 1, 2, 2, 3, 4])
            absent = lambda: rnd.random() < .2
            if kind == "values":
                raw = [None if absent() else tuple(rnd.randint(0, 2) for _ in range(dim)) for _ in range(n)]
                objs = raw
                args = [[] if x is None else ([x[0], x[1] * UNIT] if dim == 2 else [x[0] * UNIT]) for x in raw]
                # equal tuples must be told apart by identity
                objs = [None if x is None else tuple(list(x)) for x in raw]
            else:
                args, objs = [], []
                for _ in range(n):
                    if absent():
                        args.append(dict(there=False, of=[]))
                        objs.append(None)
                        continue
                    if kind == "routes":
                        k = rnd.randrange(len(contents))
                        args.append(dict(there=True, of=[k + 1]))
                        objs.append(w.build(contents[k]))
                    else:
                        ks = [k for k in range(len(contents)) if rnd.random() < .6]
                        args.append(dict(there=True, of=[k + 1 for k in ks]))
                        rs = [w.build(contents[k]) for k in ks]
                        objs.append(jit.Planning(set(rs)) if kind == "plans" else w.result(rs))
            got = o.best(*objs)
            picks.append(dict(kind=kind, args=args,
                              got=0 if got is None else next((k + 1 for k, x in enumerate(objs) if x is got), -1)))
        return dict(id=ident, inst=inst, obj=obj, routes=contents,
                    trips=[[dict(t=w.ti(x.trip), v=value(obj, f(x))) for x in r.planned_trips] for r in routes],
                    stops=[[value(obj, f(s)) for s in r.stops] for r in routes],
                    rvals=[value(obj, f(r)) for r in routes], pval=value(obj, f(plan)),
                    resval=value(obj, rnd.choice([lambda: f(res), lambda: res.optimization_value])()), picks=picks)
    rec = attempt(run)
    if isinstance(rec, Raised):
        return fail("objective " + obj, rec, inst=inst, contents=contents)
    return dict(rec=rec, count={"picks": len(rec["picks"]), "trip_values": sum(map(len, rec["trips"]))})


def criterion_case(job):
    ident, seed = job
    rnd = case_rnd("C15", seed)
    crit = rnd.choice(sorted(CRITS))
    inst = Gen(rnd).instance(n=size(rnd, rnd.randint(1, 5)), m=size(rnd, rnd.randint(1, 3), 5, 14), fine=rnd.random() < .2,
                             easy=rnd.random() < .75, tight=rnd.choice([0, 0, .5]))
    contents = contents_for(rnd, inst, again=.5) + contents_for(rnd, inst, again=.5)
    if crit == "HashCode":
        on_time(rnd, inst, contents)
    w = World(inst)

    def run():
        c = getattr(w.jit, CRITS[crit])()
        if rnd.random() < .5:      # the same criterion served another request before
            f = rnd.choice([2, 3])
            other = World(dict(inst, pos=[[f * x for x in q] for q in inst["pos"]], dist=[[f * x for x in q] for q in inst["dist"]],
                               trips=[dict(t, bonus=t["bonus"] + UNIT) for t in inst["trips"]]))
            c.best(*[other.build(x) for x in contents])
            for x in contents:
                c.scoring(other.build(x))
        if rnd.random() < .5:
            routes = [w.build(x) for x in contents]
        else:                      # the routes were scored when they were others
            routes = [w.build(x) for x in aged(rnd, inst, contents)]
            c.sorted([r for r in routes if c.scoring(r) is not None])
            renew(w, routes, contents)
        n = len(routes)
        best, srt, nb = [], [], []

        def draw(absent=False):
            ks = [rnd.randint(1, n) for _ in range(rnd.randint(0, 6))]
            if absent:
                ks = [0 if rnd.random() < .2 else k for k in ks]
            objs = [None if k == 0 else (routes[k - 1] if rnd.random() < .5 else w.build(contents[k - 1])) for k in ks]
            for a in range(len(objs)):      # one object per place
                if objs[a] is not None and any(objs[a] is objs[b] for b in range(a)):
                    objs[a] = w.build(contents[ks[a] - 1])
            return ks, objs

        def where(objs, x):
            return next((k + 1 for k, y in enumerate(objs) if y is x), -1)
        for _ in range(3):
            ks, objs = draw(True)
            got = c.best(*objs)
            best.append(dict(args=ks, got=0 if got is None else where(objs, got)))
            ks, objs = draw()
            given = list(objs)
            inplace = rnd.random() < .5
            out = c.sorted(given, inplace=inplace) if inplace or rnd.random() < .5 else c.sorted(iter(given))
            srt.append(dict(args=ks, got=[where(objs, x) for x in (given if inplace else out)]))
            ks, objs = draw()
            m = rnd.randint(1, 5)
            given = list(objs)
            out = c.nbest(m, given) if rnd.random() < .5 else c.nbest(m, iter(given))
            nb.append(dict(n=m, args=ks, got=[where(objs, x) for x in out]))
        return dict(id=ident, inst=inst, crit=crit, routes=contents, scores=[tick(c.scoring(r)) for r in routes],
                    best=best, sorted=srt, nbest=nb)
    rec = attempt(run)
    if isinstance(rec, Raised):
        return fail("criterion " + crit, rec, inst=inst, contents=contents)
    return dict(rec=rec, count={"routes_scored": len(contents), "crit_" + crit: 1})


def data_case(job):
    ident, seed = job
    rnd = case_rnd("C16", seed)
    n, m = size(rnd, rnd.randint(0, 4)), size(rnd, rnd.randint(1, 3), 5, 14)
    inst = Gen(rnd).instance(n=max(n, 1), m=m, fine=rnd.random() < .3, easy=rnd.random() < .2)
    inst["trips"] = inst["trips"][:n]
    import jinete as jit

    def omit(d, keys, p):
        return {k: v for k, v in d.items() if k not in keys or rnd.random() >= p}

    def run():
        surface = jit.GeometricSurface(jit.DistanceMetric.MANHATTAN if inst["metric"] == "M" else jit.DistanceMetric.EUCLIDEAN)
        P = lambda k: surface.get_or_create_position([num(c) for c in inst["pos"][k - 1]])
        pid = {tuple(num(c) for c in p): k + 1 for k, p in enumerate(inst["pos"])}
        p = rnd.choice([0, .3, .7, 1])
        zeros = rnd.choice([0, 0, .1, .3])
        zeroed = lambda d: {k: 0 if k not in ("o", "d") and rnd.random() < zeros else x for k, x in d.items()}
        raw = [zeroed(omit(t, set(t) - {"o", "d"}, p)) for t in inst["trips"]]
        names = dict(oe="earliest", ol="latest", od="duration", de="earliest", dl="latest", dd="duration", cap="capacity",
                     to="timeout", bonus="on_time_bonus")

        def kw(r, keys):
            return {names[k]: num(r[k]) for k in keys if k in r}
        trips = [jit.Trip(str(k), jit.Service(P(r["o"]), **kw(r, ("oe", "ol", "od"))),
                          jit.Service(P(r["d"]), **kw(r, ("de", "dl", "dd"))), **kw(r, ("cap", "to", "bonus")))
                 for k, r in enumerate(raw)]
        vraw, vehs = [], []
        for k, v in enumerate(inst["veh"]):
            r = omit(dict(v, ol=v["dl"], od=rnd.choice([0, 2]) * UNIT, de=v["oe"], dd=rnd.choice([0, 1]) * UNIT),
                     {"oe", "ol", "od", "de", "dl", "dd", "cap", "to", "d"}, p)
            if "d" not in r:
                for x in ("de", "dl", "dd"):
                    r.pop(x, None)
            r = zeroed(r)
            o = jit.Service(P(r["o"]), **kw(r, ("oe", "ol", "od")))
            vk = kw(r, ("cap", "to"))
            if "d" in r:
                vk["destination"] = jit.Service(P(r["d"]), **kw(r, ("de", "dl", "dd")))
            vraw.append(r)
            vehs.append(jit.Vehicle(str(k), o, **vk))
        tid = {id(t): k + 1 for k, t in enumerate(trips)}
        vid = {id(v): k + 1 for k, v in enumerate(vehs)}
        pos = lambda x: pid.get(tuple(x.coordinates), 0)
        order = ["oe", "ol", "de", "dl"]
        rnd.shuffle(order)      # read in any order
        get = dict(oe="origin_earliest", ol="origin_latest", de="destination_earliest", dl="destination_latest")
        seen = []
        for t in trips:
            d = {k: tick(getattr(t, get[k])) for k in order}
            d.update(od=tick(t.origin_duration), dd=tick(t.destination_duration), o=pos(t.origin_position),
                     d=pos(t.destination_position), cap=tick(t.capacity), empty=bool(t.empty), to=tick(t.timeout),
                     bonus=tick(t.on_time_bonus), dist=tick(t.distance), time=tick(t.duration(0)))
            seen.append(d)
        vseen = [dict(o=pos(v.origin_position), oe=tick(v.origin_earliest), ol=tick(v.origin_latest), od=tick(v.origin_duration),
                      d=pos(v.destination_position), de=tick(v.destination_earliest), dl=tick(v.destination_latest),
                      dd=tick(v.destination_duration), cap=tick(v.capacity), to=tick(v.timeout)) for v in vehs]
        # a plan over these
        left = [t for t in range(1, n + 1) if rnd.random() < .7]
        contents, routes = [], []
        for v in range(1, m + 1):
            if rnd.random() < .2:
                continue
            k = rnd.randint(0, len(left))
            mine, left = left[:k], left[k:]
            # stop order by hand: the timetable is of no interest here
            veh = vehs[v - 1]
            c = random_route(rnd, dict(inst, veh=[dict(o=1, d=1)] * m), v, mine, merge=.5)
            stops, prev, pts = [], None, {}
            for q, s in enumerate(c["s"]):
                place = veh.origin_position if q == 0 else veh.destination_position if q == len(c["s"]) - 1 else P(s["p"])
                st = jit.Stop(veh, place, prev)
                for t in s["P"]:
                    pts[t] = jit.PlannedTrip(veh, trips[t - 1], st, None)
                for t in s["D"]:
                    pts[t].delivery = st
                    st.append_delivery(pts[t])
                stops.append(st)
                prev = st
            contents.append(c)
            routes.append(jit.Route(veh, stops))
        requested = list(range(1, n + 1))
        fleet, job = jit.Fleet(set(vehs)), jit.Job(set(trips), objective_cls=jit.DialARideObjective)

        class Fixed(jit.Algorithm):
            def _optimize(self_):
                return jit.Planning(set(routes))
        res = Fixed(fleet=fleet, job=job).optimize()
        if rnd.random() < .5:      # asked before, when some trips were still (or not yet) on the routes
            now = [list(r.stops) for r in routes]
            spare = [jit.Stop(vehs[0], trips[t - 1].origin_position, None) for t in left]
            for x, t in zip(spare, left):
                jit.PlannedTrip(vehs[0], trips[t - 1], x, jit.Stop(vehs[0], trips[t - 1].destination_position, x))
            for k, r in enumerate(routes):
                r.stops = now[rnd.randrange(len(now))] if rnd.random() < .3 else [now[k][0], *spare, now[k][-1]]
            for r in routes:
                list(r.trips), list(r.loaded_trips), r.loaded_trips_count, r.loaded
            for x in (res.completed_trips, res.coverage_rate, res.planning.trips, res.planning.loaded_routes,
                      res.planning.vehicles, res.trips, res.vehicles):
                list(x) if not isinstance(x, float) else x
            for r, stops in zip(routes, now):
                r.stops = stops
        T = lambda ts: sorted(tid.get(id(t), 0) for t in ts)
        cov = res.coverage_rate
        stats = dict(completed=T(res.completed_trips), coverage=tick(cov * n if n else cov), trips=T(res.planning.trips),
                     loaded=sorted(vid[id(r.vehicle)] for r in res.planning.loaded_routes),
                     vehicles=sorted(vid[id(v)] for v in res.planning.vehicles), requested=T(res.trips),
                     fleet=sorted(vid[id(v)] for v in res.vehicles))
        rstats = [dict(trips=T(r.trips), loadedtrips=T(r.loaded_trips), count=r.loaded_trips_count, loaded=bool(r.loaded))
                  for r in routes]
        return dict(id=ident, metric=inst["metric"], pos=inst["pos"], dist=inst["dist"], raw=raw, seen=seen, vraw=vraw,
                    vseen=vseen, requested=requested, routes=contents, stats=stats, rstats=rstats)
    rec = attempt(run)
    if isinstance(rec, Raised):
        return fail("data", rec, inst=inst)
    return dict(rec=rec, count={"trips": n, "routes": len(rec["routes"]), "empty_requests": int(n == 0)})
