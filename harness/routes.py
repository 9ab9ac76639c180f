"""Replaying edit histories generated by TLC from spec/RouteEdit.tla on real routes (C04, C05, C07)."""
import concurrent.futures as cf
import copy
from drivers import *

H_RE = re.compile(r'^<<"H", (\d+), "(.*)">>$')


def sched(inst, R):
    """Timetable of a content; used only to aim limits at their boundary when generating cases."""
    T, V, D = inst["trips"], inst["veh"][R["v"] - 1], inst["dist"]
    dep, p, load, out = V["oe"], V["o"], 0, []
    for s in R["s"]:
        arr = dep + D[p - 1][s["p"] - 1]
        ear, ld = 0, 0
        for t in s["P"]:
            x = T[t - 1]
            ear = max(ear, x["oe"], x["de"] - x["od"] - x["to"] if x["to"] < INF else 0)
            ld = max(ld, x["od"])
            load += x["cap"]
        for t in s["D"]:
            x = T[t - 1]
            ear = max(ear, x["de"], x["oe"] + x["od"] + D[x["o"] - 1][x["d"] - 1])
            ld = max(ld, x["dd"])
            load -= x["cap"]
        st = max(arr, ear, s["pin"])
        dep, p = st + ld, s["p"]
        out.append(dict(arr=arr, st=st, dep=dep, load=load))
    return out


def aim(rnd, inst, R):
    """Puts one or two limits of the instance within a few ticks of what route R needs."""
    inst = copy.deepcopy(inst)
    for _ in range(rnd.choice([1, 1, 2])):
        S = sched(inst, R)
        eps = rnd.choice([0, 0, 3, 4, 5, -3, -4, -5, 100, -100, UNIT, -UNIT])
        V = inst["veh"][R["v"] - 1]
        trips = sorted({t for s in R["s"] for t in s["P"]})
        kind = rnd.choice(["to", "dl", "cap", "oe"] + ["tto", "ol", "tdl"] * 2 * bool(trips))
        if kind == "to": V["to"] = max(0, S[-1]["dep"] - S[0]["dep"] + eps)
        if kind == "dl": V["dl"] = max(0, S[-1]["dep"] + eps)
        if kind == "cap": V["cap"] = max(0, max(r["load"] for r in S) + eps)
        if kind == "oe": V["oe"] = max(0, V["oe"] + eps)
        if trips:
            t = rnd.choice(trips)
            T = inst["trips"][t - 1]
            a = next(k for k, s in enumerate(R["s"]) if t in s["P"])
            b = next(k for k, s in enumerate(R["s"]) if t in s["D"])
            if kind == "tto": T["to"] = max(0, S[b]["st"] - S[a]["dep"] + eps)
            if kind == "ol": T["ol"] = max(0, S[a]["st"] + eps)
            if kind == "tdl": T["dl"] = max(0, S[b]["st"] + eps)
    return inst


def edit_case(rnd, aimed=False, big=False):
    n = size(rnd, rnd.randint(1, 5 if big else 4), 9, 14)
    inst = Gen(rnd).instance(n=n, m=1, fine=rnd.random() < .2, easy=rnd.random() < (.5 if aimed else .2),
                             tight=rnd.choice([0, .2, .8]))
    served = [t for t in range(1, n + 1) if rnd.random() < .6]
    R = random_route(rnd, inst, 1, served, merge=.6, pins=rnd.choice([0, 0, .2]))
    if aimed:
        inst = aim(rnd, inst, R)
    return dict(inst=inst, r=R)


def histories(ck, cases, num, maxops, heap=3, procs=4, nxt="SimNext", module="RouteEditSim", cfg=None):
    """[(case index, history)]: behaviours of RouteEdit (or another module), drawn by TLC's simulator."""
    path = write_json(cases, "edits")
    cfg = cfg or ("INIT SimInit\nNEXT %s\nCONSTANTS\nCases <- SimCases\nStarts <- SimStarts\nMaxOps = %d\nMaxHeap = %d\n"
           "INVARIANT Emit\n" % (nxt, maxops, heap))

    def one(k):
        return run_tlc(module, cfg, env={"DATA": path}, workers=1, heap="3g",
                       extra=["-simulate", "num=%d" % (num // procs), "-depth", str(6 * maxops), "-seed",
                              str(SEED * 100 + k)])
    try:
        with cf.ThreadPoolExecutor(procs) as ex:
            outs = list(ex.map(one, range(procs)))
    finally:
        os.unlink(path)
    res, seen = [], set()
    for out, st in outs:
        if "Error:" in out:
            raise TLCError("generation of histories failed:\n" + gist(out))
        ck.states += st["distinct"]
        ck.transitions += st["states"]
        for line in out.splitlines():
            m = H_RE.match(line.strip())
            if m and (m.group(1), m.group(2)) not in seen:
                seen.add((m.group(1), m.group(2)))
                res.append((int(m.group(1)) - 1, json.loads(m.group(2).encode().decode("unicode_escape"))))
    if not res:
        raise TLCError("no history was generated:\n" + out[-1500:])
    return res


class Replay:
    """Executes the operations of a history on real routes."""

    def __init__(self, case, objective="DialARide"):
        self.w = World(case["inst"], objective)
        self.jit = self.w.jit
        self.routes = [self.w.build(case["r"])]
        self.removed = []
        self.plan = self.jit.Planning(set())          # of all routes, asked again and again
        self.result = self.jit.Result(self.jit.InsertionAlgorithm(fleet=self.w.fleet, job=self.w.job), self.plan, 0.0)

    def whole(self):
        self.plan.routes |= set(self.routes)
        return [bool(self.plan.feasible), bool(self.result.feasible)]

    def apply(self, op):
        """Returns the observation for reads, what the operation answered otherwise."""
        jit, w = self.jit, self.w
        r = self.routes[op["h"] - 1]
        name = op["op"]
        if name == "append":
            trip = w.trips[op["t"] - 1]
            i, j = op["i"], op["j"]
            pickup = jit.Stop(r.vehicle, trip.origin_position, r.stops[i])
            delivery = jit.Stop(r.vehicle, trip.destination_position, pickup if j == i + 1 else r.stops[j - 1])
            r.append_planned_trip(jit.PlannedTrip(r.vehicle, trip, pickup, delivery))
        elif name == "insert":
            stop = jit.Stop(r.vehicle, w.P(op["p"]), r.stops[op["k"] - 1])
            return dict(same=r.insert_stop_at(op["k"], stop) is stop and r.stops[op["k"]] is stop)
        elif name == "stray":
            if self.removed and op["p"] % 2:
                lost = self.removed[-1]
                if any(lost is s for q in self.routes for s in q.stops):
                    lost = jit.Stop(r.vehicle, w.P(op["p"]), None)
            else:
                lost = jit.Stop(r.vehicle, w.P(op["p"]), r.stops[0] if op["p"] % 3 else None)
            try:
                r.insert_stop(jit.Stop(r.vehicle, w.P(op["p"]), lost))
            except jit.exceptions.PreviousStopNotInRouteException:
                return dict(same=True)
            return dict(same=False)
        elif name == "remove":
            stop = r.stops[op["k"]]
            self.removed.append(stop)
            return dict(same=r.remove_stop_at(op["k"]) is stop)
        elif name == "drop":
            r.remove_trip(w.trips[op["t"] - 1])
        elif name == "start":
            r.stops[op["k"]].starting_time = num(op["x"])
            r.flush()
        elif name == "first":
            r.insert_stop(jit.Stop(r.vehicle, r.vehicle.origin_position, None, starting_time=num(op["x"])))
        elif name == "clone":
            self.routes.append(r.clone(op["w"]))
        elif name == "deepcopy":
            self.routes.append(next(iter(copy.deepcopy(jit.Planning({r})).routes)))
        elif name == "offer":
            got = jit.InsertionStrategy(only_feasible=False).compute(
                r, w.trips[op["t"] - 1], op["i"], op["j"])
            self.routes.append(got[0])
        elif name == "read":
            return self.observe(r, op["what"])
        else:
            raise ValueError(name)
        return {}

    def trip_rows(self, r, what):
        out = []
        for x in sorted(r.planned_trips, key=lambda x: self.w.ti(x.trip)):
            out.append(dict(t=self.w.ti(x.trip), dur=tick(x.duration), start=tick(x.pickup_time), to=tick(x.delivery_time),
                            wait=tick(x.waiting_time), drive=tick(x.transit_time), service=tick(x.load_time),
                            ok=bool(x.feasible)))
        return out

    def observe(self, r, what):
        w = self.w
        if what == "verdict":
            return dict(ok=bool(r.feasible))
        if what == "rides":
            return dict(rides=self.trip_rows(r, what))
        if what == "times":
            return dict(dep=[tick(s.departure_time) for s in r.stops])
        row = lambda s: dict(arr=tick(s.arrival_time), st=tick(s.starting_time), dep=tick(s.departure_time),
                             load=tick(s.capacity), tr=tick(s.transit_time), ear=tick(s.earliest), lat=tick(s.latest),
                             ld=tick(s.load_time))
        if what == "backwards":
            return dict(rows=[row(s) for s in reversed(r.stops)][::-1])
        d = dict(rows=[row(s) for s in r.stops], waits=[tick(s.waiting_time) for s in r.stops], dur=tick(r.duration),
                 dist=tick(r.distance), wait=tick(r.waiting_time), fdep=tick(r.first_departure_time),
                 ldep=tick(r.last_departure_time), rides=self.trip_rows(r, what),
                 driven=[tick(s.distance) for s in r.stops],
                 stopok=[bool(s.feasible) for s in r.stops], ok=bool(r.feasible), transit=tick(r.transit_time),
                 order=[dict(p=w.pi(s.position), P=sorted(w.ti(x.trip) for x in s.pickup_planned_trips),
                             D=sorted(w.ti(x.trip) for x in s.delivery_planned_trips)) for s in r.stops],
                 links=w.links(r), cur=[w.pi(r.current_position), tick(r.current_arrival_time),
                                        tick(r.current_departure_time)])
        return d

    def expected(self, e, what):
        rides = [dict(t=q["t"], dur=q["dur"], start=q["from"], to=q["to"], wait=q["wait"], drive=q["drive"],
                      service=q["service"], ok=q["ok"]) for q in e["rides"]]
        if what == "verdict":
            return dict(ok=e["ok"])
        if what == "rides":
            return dict(rides=rides)
        if what == "times":
            return dict(dep=[x["dep"] for x in e["rows"]])
        if what == "backwards":
            return dict(rows=e["rows"])
        n = len(e["rows"])
        links = []
        for k, s in enumerate(e["content"]["s"]):
            pt = []
            for t in s["P"] + s["D"]:
                a = next(m + 1 for m, q in enumerate(e["content"]["s"]) if t in q["P"])
                b = next(m + 1 for m, q in enumerate(e["content"]["s"]) if t in q["D"])
                pt.append([t, a, b, e["content"]["v"]])
            links.append(dict(prev=k, pt=sorted(pt), v=e["content"]["v"]))
        return dict(rows=e["rows"], waits=e["waits"], dur=e["dur"], dist=e["dist"], wait=e["wait"], fdep=e["fdep"],
                    ldep=e["ldep"], rides=rides, driven=[x["tr"] for x in e["rows"]], stopok=e["stopok"], ok=e["ok"],
                    transit=sum(q["dur"] for q in rides),
                    order=[dict(p=s["p"], P=sorted(s["P"]), D=sorted(s["D"])) for s in e["content"]["s"]], links=links,
                    cur=[e["content"]["s"][-2]["p"], e["rows"][-2]["arr"], e["rows"][-2]["dep"]])


VERDICT_KEYS = ("ok", "stopok")


def differences(prop, got, exp):
    """Names of the answers that differ, of those the property speaks about."""
    if prop == "C06":
        return [k for k in ("order", "rows", "dep") if k in exp and got[k] != exp[k]]
    bad = []

    def ride(rows, verdict):
        return [{k: v for k, v in q.items() if (k in ("ok", "t")) == verdict or k == "t"} for q in rows]
    for key in exp:
        if key == "rides":
            if ride(got[key], prop == "C05") != ride(exp[key], prop == "C05"):
                bad.append("rides")
        elif (key in VERDICT_KEYS) == (prop == "C05"):
            if got[key] != exp[key]:
                bad.append(key)
    return bad


def replay_case(job):
    """Replays one history; the answers must be those of the specification."""
    prop, case, hist = job
    rp = Replay(case)
    done = []
    for n, op in enumerate(hist):
        got = attempt(rp.apply, op, seconds=30)
        brief = {k: v for k, v in op.items() if k != "exp"}
        done.append(brief)
        if isinstance(got, Raised):
            return fail("edit history %s" % op["op"], got, case=case, history=done)
        if got.get("same") is False and prop == "C04":
            return dict(bad=dict(step=n, clauses=["answers_the_stop_itself"], history=done, case=case))
        if op["op"] == "read":
            bad = differences(prop, got, rp.expected(op["exp"], op["what"]))
            if prop == "C05" and op["what"] in ("verdict", "all") and not bad:
                got = attempt(rp.whole, seconds=30)
                if isinstance(got, Raised):
                    return fail("verdict of the plan", got, case=case, history=done)
                bad = ["plan"] * (got != [op["plan"]] * 2)
            if bad:
                return dict(bad=dict(step=n, clauses=bad, history=done, case=case, got=got,
                                     expected=rp.expected(op["exp"], op["what"])))
    return dict(count={"operations_replayed": len(hist), "reads_compared": sum(o["op"] == "read" for o in hist),
                       "traces_ok": 1})


def replay_all(ck, prop, cases, hists):
    outs = parallel(replay_case, [(prop, cases[c], h) for c, h in hists])
    for o in outs:
        if o.get("raised"):
            r = o["raised"]
            ck.violate(dict(clause="raised", what=r["what"].split(":")[0], where=r["where"].split(":")[0]),
                       "%s raised %s (%s)" % (r["name"], r["what"], r["where"]), r)
        elif o.get("bad"):
            b = o["bad"]
            ck.violate(dict(clause=",".join(b["clauses"]), step=b["step"]),
                       "after %s the code answers differently for %s" % (
                           " ".join(h["op"] for h in b["history"]), ",".join(b["clauses"])), b)
        for key, n in o.get("count", {}).items():
            ck.extra[key] = ck.extra.get(key, 0) + n
    ck.traces += len(outs)
    if hists:
        ck.samples.append([{k: v for k, v in op.items() if k != "exp"} for op in hists[0][1]])


# ------------------------------------------------------------------ C07: recorded for CopyTrace
def copy_case(job):
    """Executes a history (reads included) and records what every reading says and which stops are shared."""
    ident, case, hist, seed, twins = job
    rnd = random.Random(seed)
    rp = Replay(case)
    w, jit = rp.w, rp.jit
    ev = []

    def reading(r):
        d = rp.observe(r, "all")
        return dict(content=w.content(r), links=w.links(r), rows=d["rows"], dist=d["dist"], dur=d["dur"], ok=d["ok"],
                    stopok=d["stopok"], rides=d["rides"])

    def share(a, b):
        """0-based indices, in the copy, of stops or trip records it has in common with its source."""
        ids = {id(s) for s in a.stops} | {id(x) for s in a.stops for x in s.planned_trips}
        return [k for k, s in enumerate(b.stops) if id(s) in ids or any(id(x) in ids for x in s.planned_trips)]

    ver, own = [0], [0]            # versions as CopyTrace has them; first stop that a route does not share
    astray = set()                 # routes edited as twins, which are not what the generator thinks they are

    def first_touched(r, op):
        """Lowest index of the stops that an edit changes."""
        if op["op"] == "append":
            return op["i"] + 1
        if op["op"] == "drop":
            t = w.trips[op["t"] - 1]
            return min(k for k, s in enumerate(r.stops) if t in s.trips)
        return 0 if op["op"] == "first" else op.get("k", 0)

    def twin(h, op):
        """Another route of the same version on which the same edit is allowed."""
        if not twins or op["op"] not in ("append", "insert", "remove", "drop", "start", "first"):
            return None
        low = first_touched(rp.routes[h - 1], op)
        free = [g for g in range(1, len(ver) + 1) if g != h and ver[g - 1] == ver[h - 1] and own[g - 1] <= low]
        return rnd.choice(free) if free and rnd.random() < .7 else None

    def run():
        for n, op in enumerate(hist):
            h = op["h"]
            if op["op"] == "read":
                ev.append(dict(op="read", h=h, r=reading(rp.routes[h - 1])))
                continue
            if rnd.random() < .4:
                k = rnd.randrange(len(rp.routes))
                ev.append(dict(op="read", h=k + 1, r=reading(rp.routes[k])))
            src = rp.routes[h - 1]
            if h in astray:
                if op["op"] == "clone":
                    op = dict(op, w=min(op["w"], len(src.stops) - 1))
                elif op["op"] in ("deepcopy", "offer"):
                    op = dict(op="deepcopy", h=h)
                else:
                    continue
            other = twin(h, op)
            rp.apply(op)
            if op["op"] in ("clone", "deepcopy"):
                ev.append(dict(op="clone", h=h, w=op.get("w", 0), shared=share(src, rp.routes[-1])))
                own[h - 1] = max(own[h - 1], op.get("w", 0))
                own.append(op.get("w", 0))
                ver.append(ver[h - 1])
                if h in astray:
                    astray.add(len(ver))
            elif op["op"] == "offer":
                ev.append(dict(op="new"))
                own[h - 1] = max(own[h - 1], op["i"] + 1)
                own.append(op["i"] + 1)
                ver.append(-n - 1)
            elif op["op"] == "stray":
                ev.append(dict(op="edit", h=h))
                ver[h - 1] = n + 1
            elif other is None:
                ev.append(dict(op="edit", h=h))
                ver[h - 1] = n + 1
            else:
                rp.apply(dict(op, h=other))
                astray.add(other)
                ev.append(dict(op="both", h=h, g=other))
                ver[h - 1] = ver[other - 1] = n + 1
    bad = attempt(run, seconds=60)
    if isinstance(bad, Raised):
        return fail("copy history", bad, case=case)
    return dict(rec=dict(id=ident, ev=ev), count={"copies": sum(e["op"] == "clone" for e in ev),
                                                  "edits": sum(e["op"] == "edit" for e in ev),
                                                  "edits_of_twins": sum(e["op"] == "both" for e in ev)})


def result_reading(w, res):
    """All a user sees of a result."""
    routes = sorted(res.planning.routes, key=lambda r: (w.vi(r.vehicle), r.identifier))
    value = tuple(tick(x) for x in res.optimization_value) if hasattr(res, "algorithm") else ()
    return dict(content=[w.content(r) for r in routes], links=[w.links(r) for r in routes],
                t=[w.times(r) for r in routes], ok=[w.verdicts(r) for r in routes],
                all=bool(res.feasible), value=value)


def search_unaltered_case(job):
    """Runs searches from an initial result; it and every offered route must stay as they were."""
    ident, seed = job
    rnd = case_rnd("C08", seed)
    random.seed(rnd.random())
    inst = Gen(rnd).instance(n=rnd.randint(1, 6), m=rnd.randint(1, 3), easy=rnd.random() < .6, fine=rnd.random() < .1,
                             tight=rnd.choice([0, .2, .8]))
    obj = rnd.choice(OBJS)
    w = World(inst, obj)
    jit = w.jit
    ev, objs = [], []
    kind = rnd.choice(["insertion", "insertion", "search", "search", "strategy", "sequential", "iterative", "grasp"])

    def new(o, reading):
        objs.append((o, reading))
        ev.append(dict(op="new"))
        look(len(objs) - 1)

    def look(k):
        o, reading = objs[k]
        ev.append(dict(op="read", h=k + 2, r=reading(o)))

    def route_reading(r):
        return dict(content=w.content(r), links=w.links(r), t=w.times(r), ok=w.verdicts(r))

    def run():
        nonlocal w
        contents, routes = random_plan(w, rnd, pins=rnd.choice([0, 0, .2]), keep=.6)
        if rnd.random() < .3:
            w, routes = brief(w, rnd, obj, contents, routes)
        initial = w.result(routes)
        new(initial, lambda o: result_reading(w, o))
        for r in routes:
            new(r, route_reading)
        twins = []               # routes of the same content, made apart: what is done to both later gives the same
        for k, c in enumerate(contents):
            if rnd.random() < .5:
                objs.append((w.build(c), route_reading))
                ev.append(dict(op="clone", h=k + 3, w=0, shared=[]))
                twins.append((k + 1, len(objs) - 1))
                look(len(objs) - 1)

        def watched(cls):
            class Watched(cls):
                def compute(self_, *a, **k):
                    out = super().compute(*a, **k)
                    for r in out:
                        if len(objs) < 45 and rnd.random() < .3 and all(o is not r for o, _ in objs):
                            new(r, route_reading)
                    if rnd.random() < .1:
                        look(rnd.randrange(len(objs)))
                    return out
            return Watched
        strat = rnd.choice(sorted(strategies(jit)))
        if kind == "strategy":
            s = watched(strategies(jit)[strat])(only_feasible=rnd.random() < .5)
            for _ in range(3):
                r = rnd.choice([o for k, (o, _) in enumerate(objs) if isinstance(o, jit.Route) and all(k != b for _, b in twins)])
                free = [t for t in w.trips if t not in set(r.trips)]
                if free:
                    s.compute(r, rnd.sample(free, rnd.randint(1, len(free))))
        elif kind == "insertion":
            kw = random_insertion_kwargs(rnd, jit)
            kw["strategy_cls"] = watched(strategies(jit)[strat])
            jit.InsertionAlgorithm(fleet=w.fleet, job=w.job, initial=initial, **kw).optimize()
        elif kind == "search":
            s = rnd.choice(sorted(searches(jit)))
            jit.LocalSearchAlgorithm(fleet=w.fleet, job=w.job, initial=initial, strategy_cls=searches(jit)[s]).optimize()
        elif kind == "sequential":
            jit.SequentialAlgorithm(fleet=w.fleet, job=w.job, initial=initial).optimize()
        elif kind == "iterative":
            jit.IterativeAlgorithm(fleet=w.fleet, job=w.job, initial=initial, episodes=2, restart_mode=rnd.random() < .5,
                                   algorithm_cls=jit.InsertionAlgorithm,
                                   strategy_cls=watched(strategies(jit)[strat])).optimize()
        else:
            jit.SequentialAlgorithm(fleet=w.fleet, job=w.job, initial=initial, algorithms_cls=[
                (jit.LocalSearchAlgorithm, {"strategy_cls": searches(jit)["reallocation"]}),
                (jit.LocalSearchAlgorithm, {"strategy_cls": searches(jit)["one_shift"]})]).optimize()
        for k in range(len(objs)):
            look(k)
        for a, b in twins:
            for t in rnd.sample(w.trips, len(w.trips)):
                if t in set(objs[a][0].trips) and rnd.random() < .7:
                    objs[a][0].remove_trip(t)
                    objs[b][0].remove_trip(t)
                    ev.append(dict(op="both", h=a + 2, g=b + 2))
                    look(a), look(b)
    bad = attempt(run, seconds=60)
    if isinstance(bad, Raised):
        return fail("search " + kind, bad, inst=inst)
    return dict(rec=dict(id=ident, ev=ev, kind=kind), count={"searches_" + kind: 1, "objects_watched": len(objs)})


# ------------------------------------------------------------------ C06
def candidates_case(job):
    ident, seed = job
    rnd = case_rnd("C06", seed)
    random.seed(rnd.random())
    long = rnd.random() < .04
    n = rnd.randint(8, 12) if long else rnd.randint(1, 4)
    inst = Gen(rnd).instance(n=n, m=1, easy=rnd.random() < .4, fine=rnd.random() < .2, tight=rnd.choice([0, .2, .8]))
    served = [t for t in range(1, n) if long or rnd.random() < .6]
    free = [t for t in range(1, n + 1) if t not in served]
    base = random_route(rnd, inst, 1, served, merge=rnd.choice([0, 0, .6]), pins=rnd.choice([0, 0, 0, .2]))
    w = World(inst)
    if rnd.random() < .15:
        w, _ = brief(w, rnd, "DialARide", [base], [w.build(base)])
        inst = w.inst
    jit = w.jit
    mode = rnd.choice(["sample", "sample", "all", "tail"] if long else ["all", "all", "tail", "sample", "pair"])
    trips = rnd.sample(free, rnd.randint(1, min(2, len(free))))
    only = rnd.random() < .5
    count = 128 if (long and rnd.random() < .5) or rnd.random() < .3 else rnd.choice([1, 2, 3, 5, 8, 12, 20])
    if rnd.random() < .5 and not long:      # limits close to what one of the insertions needs
        k = rnd.randint(0, len(base["s"]) - 2)
        x = copy.deepcopy(base)
        x["s"].insert(k + 1, dict(p=inst["trips"][trips[0] - 1]["o"], P=[trips[0]], D=[], pin=NOPIN))
        l = rnd.randint(k + 2, len(x["s"]) - 1)
        x["s"].insert(l, dict(p=inst["trips"][trips[0] - 1]["d"], P=[], D=[trips[0]], pin=NOPIN))
        inst = aim(rnd, inst, x)
        w = World(inst)
    at = sorted(rnd.sample(range(len(base["s"])), 2))

    def run():
        r = w.build(base)
        if rnd.random() < .5:
            rnd.choice([lambda: r.feasible, lambda: r.duration, lambda: r.stops[1].departure_time])()
        ts = [w.trips[t - 1] for t in trips]
        arg = ts[0] if len(ts) == 1 and rnd.random() < .5 else rnd.choice([list, iter, set, tuple])(ts)
        cls = {**strategies(jit), "pair": jit.InsertionStrategy}[mode]
        s = cls(only_feasible=only) if rnd.random() < .5 else cls()
        kw = {} if s.only_feasible == only and rnd.random() < .5 else {"only_feasible": only}
        if mode == "sample" and not (count == 128 and rnd.random() < .5):
            kw["count"] = count
        if mode == "pair":
            out = s.compute(r, arg, at[0], at[1], **kw)
        else:
            out = s.compute(r, arg, **kw)
        return [w.content(x) for x in out]
    out = attempt(run)
    if isinstance(out, Raised):
        return fail("insertion search " + mode, out, inst=inst, base=base)
    timing = all(len(s["P"]) <= 1 for s in base["s"])
    return dict(rec=dict(id=ident, inst=inst, base=base, trips=trips, mode=mode, count=count, only=only, at=at,
                         timing=timing, out=out),
                count={"offered": len(out), "mode_" + mode: 1})


def deep_case(job):
    """Deep copies of whole plans and results."""
    ident, seed = job
    rnd = case_rnd("C07deep", seed)
    inst = Gen(rnd).instance(n=size(rnd, rnd.randint(1, 5)), m=size(rnd, rnd.randint(1, 3), 5, 14), easy=rnd.random() < .6)
    w = World(inst, rnd.choice(OBJS))
    jit = w.jit
    ev = []

    def reading(res):
        plan = res.planning if hasattr(res, "planning") else res
        routes = sorted(plan.routes, key=lambda r: (w.vi(r.vehicle), r.identifier))
        return [dict(content=w.content(r), links=w.links(r), t=w.times(r), ok=bool(r.feasible)) for r in routes]

    def share(a, b):
        ra = {id(x) for p in [a.planning if hasattr(a, "planning") else a] for r in p.routes
              for x in [r] + list(r.stops) + [q for s in r.stops for q in s.planned_trips]}
        rb = [x for p in [b.planning if hasattr(b, "planning") else b] for r in p.routes
              for x in [r] + list(r.stops) + [q for s in r.stops for q in s.planned_trips]]
        return [0] if any(id(x) in ra for x in rb) else []

    def run():
        contents, routes = random_plan(w, rnd, pins=.2)
        res = w.result(routes)
        src = res if rnd.random() < .5 else res.planning
        objs = [src]
        if rnd.random() < .6:
            ev.append(dict(op="read", h=1, r=reading(src)))
        for _ in range(2):
            h = rnd.randrange(len(objs))
            c = copy.deepcopy(objs[h])
            ev.append(dict(op="clone", h=h + 1, w=0, shared=share(objs[h], c)))
            objs.append(c)
        for _ in range(rnd.randint(1, 6)):
            h = rnd.randrange(len(objs))
            plan = objs[h].planning if hasattr(objs[h], "planning") else objs[h]
            rs = sorted(plan.routes, key=lambda r: r.vehicle.identifier)
            a = rnd.random()
            if a < .5:
                ev.append(dict(op="read", h=h + 1, r=reading(objs[h])))
                continue
            if not rs:
                continue
            r = rnd.choice(rs)
            ev.append(dict(op="edit", h=h + 1))
            ts = list(r.trips)
            if a < .8 and ts:
                r.remove_trip(rnd.choice(sorted(ts, key=lambda t: t.identifier)))
            elif a < .9:
                plan.routes.remove(r)
            else:
                rnd.choice(r.stops).starting_time = rnd.randint(0, 99)
                r.flush()
        for h in range(len(objs)):
            ev.append(dict(op="read", h=h + 1, r=reading(objs[h])))
    bad = attempt(run, seconds=60)
    if isinstance(bad, Raised):
        return fail("deep copy", bad, inst=inst)
    return dict(rec=dict(id=ident, ev=ev), count={"deep_copies": 2})
