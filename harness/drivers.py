"""Driving the real solving methods and recording what they do."""
import contextlib, glob, io, signal, traceback
import common
from common import *

CRITS = {"EarliestLastDeparture": "EarliestLastDepartureTimeRouteCriterion",
         "ShortestAverage": "ShortestAveragePlannerTripDurationCriterion",
         "ShortestTime": "ShortestTimeRouteCriterion", "LongestTime": "LongestTimeRouteCriterion",
         "LongestUtil": "LongestUtilTimeRouteCriterion", "HashCode": "HashCodeRouteCriterion"}
OBJS = ["DialARide", "TaxiSharing", "HashCode"]


class Stuck(BaseException):
    pass


@contextlib.contextmanager
def limited(seconds=60):
    """Bounds one call into the code under test (it may loop forever when broken): by its processor time,
    so that a busy machine does not matter, and generously by the clock (it may wait for a solver)."""
    def on_alarm(*_):
        raise Stuck("no answer after %d seconds" % seconds)
    old = [signal.signal(s, on_alarm) for s in (signal.SIGALRM, signal.SIGPROF)]
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.alarm(5 * seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        for s, h in zip((signal.SIGALRM, signal.SIGPROF), old):
            signal.signal(s, h)


class Raised:
    def __init__(self, exc):
        self.what = "%s: %s" % (type(exc).__name__, str(exc)[:200])
        tb = traceback.extract_tb(exc.__traceback__)
        self.where = "%s:%s" % (tb[-1].name, tb[-1].lineno) if tb else ""
        self.stuck = isinstance(exc, Stuck)
        self.tb = traceback.format_exception(exc)[-6:]


def attempt(f, *a, seconds=60, **k):
    try:
        with limited(seconds):
            return f(*a, **k)
    except (Exception, Stuck) as exc:   # noqa
        return Raised(exc)


def fail(name, exc, **ctx):
    """What becomes of a case whose call raised. No answer in time counts for instances of the usual size only: it is
    no property of the code that it is quick, and a large instance may take long."""
    if exc.stuck:
        inst = ctx.get("inst") or (ctx.get("case") or {}).get("inst")
        large = inst is not None and (len(inst["trips"]) > 5 or len(inst["veh"]) > 4)
        if common.STOP is not None:
            common.STOP.value = 2 if large else 1
        if large:
            return dict(count={"large_given_up": 1})
    return dict(raised=dict(name=name, what=exc.what, where=exc.where, tb=exc.tb, ctx=ctx))


def strategies(jit):
    return {"all": jit.IntensiveInsertionStrategy, "tail": jit.TailInsertionStrategy,
            "sample": jit.SamplingInsertionStrategy}


def iterators(jit):
    return {"ranking": jit.RankingInsertionIterator, "first": jit.StatelessInsertionIterator,
            "best": jit.BestStatelessInsertionIterator}


def searches(jit):
    return {"reallocation": jit.ReallocationLocalSearchStrategy, "one_shift": jit.OneShiftLocalSearchStrategy,
            "two_opt": jit.TwoOPTLocalSearchStrategy}


def random_insertion_kwargs(rnd, jit):
    kw = {}
    if rnd.random() < .8:
        kw["strategy_cls"] = rnd.choice(list(strategies(jit).values()))
    if rnd.random() < .7:
        kw["iterator_cls"] = rnd.choice(list(iterators(jit).values()))
    if rnd.random() < .8:
        kw["criterion_cls"] = getattr(jit, CRITS[rnd.choice(sorted(CRITS))])
    if rnd.random() < .4:
        kw["randomized_size"] = rnd.choice([1, 2, 3])
    if rnd.random() < .3:
        kw["neighborhood_max_size"] = rnd.choice([None, 1, 2, 24])
    if rnd.random() < .3:
        kw["seed"] = rnd.randint(0, 99)
    if rnd.random() < .2:
        kw["only_feasible"] = True
    return kw


def run_method(w, rnd, kind=None):
    """Runs one (random) solving method on the world; returns (name, result or Raised, full, slack)."""
    jit = w.jit
    base = dict(fleet=w.fleet, job=w.job)
    kind = kind or rnd.choice(["insertion"] * 4 + ["insertion_from", "search", "search", "search", "iterative", "sequential",
                               "grasp", "naive"])
    if kind == "naive":
        return kind, attempt(lambda: jit.NaiveAlgorithm(**base).optimize()), False, 0
    if kind == "insertion":
        kw = random_insertion_kwargs(rnd, jit)
        return "%s %s" % (kind, show(kw)), attempt(lambda: jit.InsertionAlgorithm(**base, **kw).optimize()), True, 0
    if kind == "big":              # many trips; tail insertion for the largest, which would take long otherwise
        kw = random_insertion_kwargs(rnd, jit)
        large = len(w.trips) > 14
        if large:
            kw["strategy_cls"] = jit.TailInsertionStrategy
        s = rnd.choice([None, None] + (["one_shift"] if large else sorted(searches(jit))))

        def f():
            a = jit.InsertionAlgorithm(**base, **kw).optimize()
            if s is None:
                return a
            return jit.LocalSearchAlgorithm(initial=a, strategy_cls=searches(jit)[s], **base).optimize()
        return "%s %s %s" % (kind, s, show(kw)), attempt(f), True, 0
    if kind == "insertion_from":
        kw, kw2 = random_insertion_kwargs(rnd, jit), random_insertion_kwargs(rnd, jit)
        kw["strategy_cls"] = jit.TailInsertionStrategy

        def f():
            a = jit.InsertionAlgorithm(**base, **kw).optimize()
            return jit.InsertionAlgorithm(**base, initial=a, **kw2).optimize()
        return "%s %s %s" % (kind, show(kw), show(kw2)), attempt(f), True, 0
    if kind == "search":
        kw = random_insertion_kwargs(rnd, jit)
        s = rnd.choice(sorted(searches(jit)))
        extra = {} if rnd.random() < .7 else {"no_improvement_threshold": rnd.choice([1, 2])}

        def f():
            a = jit.InsertionAlgorithm(**base, **kw).optimize()
            return jit.LocalSearchAlgorithm(initial=a, strategy_cls=searches(jit)[s], **base, **extra).optimize()
        return "%s %s after %s" % (kind, s, show(kw)), attempt(f), True, 0
    if kind == "search_plan":      # from any plan that respects the limits, not only from what insertions give
        s = rnd.choice(sorted(searches(jit)))

        def f():
            contents, routes = random_plan(w, rnd)
            return jit.LocalSearchAlgorithm(initial=w.result(routes), strategy_cls=searches(jit)[s], **base).optimize()
        return "%s %s" % (kind, s), attempt(f), True, 0
    if kind == "iterative":
        kw = random_insertion_kwargs(rnd, jit)
        kw.pop("seed", None)
        kw.update(episodes=rnd.choice([1, 2, 3]), restart_mode=rnd.random() < .5)
        return "%s %s" % (kind, show(kw)), attempt(lambda: jit.IterativeAlgorithm(**base, **kw).optimize()), True, 0
    if kind == "sequential":
        kw = random_insertion_kwargs(rnd, jit)
        kw.pop("seed", None)

        def f():
            a = jit.InsertionAlgorithm(**base, **kw).optimize()
            return jit.SequentialAlgorithm(**base, initial=a).optimize()
        return "%s %s" % (kind, show(kw)), attempt(f), True, 0
    if kind == "grasp":
        kw = {"episodes": rnd.choice([1, 2]), "first_solution_kwargs": {"episodes": rnd.choice([1, 2]),
                                                                      "randomized_size": rnd.choice([1, 2, 3])}}
        if rnd.random() < .4:
            kw["local_search_kwargs"] = {"strategy_cls": searches(jit)[rnd.choice(sorted(searches(jit)))]}
        return "%s %s" % (kind, show(kw)), attempt(lambda: jit.GraspAlgorithm(**base, **kw).optimize()), True, 0
    raise ValueError(kind)


def show(kw):
    return ",".join("%s=%s" % (k, getattr(v, "__name__", v)) for k, v in sorted(kw.items()))


def plan_record(w, result, ident, name, full, x, checks):
    routes = []
    for r in result.planning.routes:
        c = w.content(r)
        c["links"] = w.links(r)
        c["ok"] = bool(r.feasible)
        routes.append(c)
    return dict(id=ident, checks=checks, method=name, inst=w.inst, routes=routes, full=full,
                planok=bool(result.feasible) and bool(result.planning.feasible), x=x)


def milp_instance(rnd, n=None, m=None, grid=9, metric="M"):
    """An instance in the domain of the exact method."""
    used = {(0, 0)}
    pos = [[0, 0]]

    def P():
        while True:
            c = (rnd.randint(-grid, grid), rnd.randint(-grid, grid))
            if c not in used:
                used.add(c)
                pos.append(list(c))
                return len(pos)
    U = UNIT
    n, m = n or rnd.randint(1, 3), m or rnd.randint(1, 2)
    veh = [mk_veh(1, 1, 0, 1440 * U, rnd.choice([1, 2, 3]) * U, rnd.choice([60, 120, 200, 480]) * U)] * m
    trips = []
    for _ in range(n):
        e = rnd.randint(20, 150)
        o, d = P(), P()
        od, dd = rnd.choice([0, 1, 2]), rnd.choice([0, 1, 2, 5])
        if rnd.random() < .5:
            trips.append(mk_trip(o, d, oe=e * U, ol=(e + rnd.randint(5, 60)) * U, od=od * U, de=0, dl=1440 * U, dd=dd * U,
                                 cap=U, to=rnd.choice([40, 60, 90]) * U))
        else:
            trips.append(mk_trip(o, d, oe=0, ol=1440 * U, od=od * U, de=(e + 20) * U,
                                 dl=(e + 20 + rnd.randint(5, 60)) * U, dd=dd * U, cap=U, to=rnd.choice([40, 60, 90]) * U))
    pos = [[c * U for c in p] for p in pos]
    return dict(metric=metric, pos=pos, trips=trips, veh=[dict(v) for v in veh], dist=distances(pos, metric))


def benchmark_instance(rnd):
    """Some of the requests of one of the published benchmark files: distances are rounded to ticks here, so judge with slack."""
    path = rnd.choice(sorted(glob.glob(os.path.join(REPO, "res", "datasets", "cordeau-laporte", "*.txt"))))
    rows = [[float(x) for x in l.split()] for l in open(path) if l.strip()]
    n = int(rows[0][1]) // 2
    if len(rows) < 2 * n + 2:
        n = (len(rows) - 2) // 2
    T = lambda x: min(INF, int(round(x * UNIT)))
    mine = sorted(rnd.sample(range(1, n + 1), min(n, rnd.choice([6, 10, 14, 24]))))
    here = [rows[1]] + [rows[1 + k] for k in mine] + [rows[1 + k + n] for k in mine]
    pos = [[T(c) for c in r[1:3]] for r in here]
    dist = [[T(math.hypot((a[0] - b[0]) / UNIT, (a[1] - b[1]) / UNIT)) for b in pos] for a in pos]
    trips = []
    for i, k in enumerate(mine):
        a, b = rows[1 + k], rows[1 + k + n]
        trips.append(mk_trip(2 + i, 2 + i + len(mine), oe=T(a[5]), ol=T(a[6]), od=T(a[3]), de=T(b[5]), dl=T(b[6]), dd=T(b[3]),
                             cap=T(a[4]), to=T(rows[0][4])))
    veh = [mk_veh(1, 1, 0, INF, T(rows[0][3]), T(rows[0][2])) for _ in range(rnd.randint(1, 3))]
    return dict(metric="E", pos=pos, trips=trips, veh=veh, dist=dist)


def exact_instance(rnd, n=None, m=None):
    """An instance in the domain of the exact method, often with hard or shareable rides."""
    n, m = n or rnd.randint(1, 3), m or rnd.randint(1, 2)
    inst = milp_instance(rnd, n=n, m=m, grid=rnd.choice([3, 5, 9]))
    cap = inst["veh"][0]["cap"]
    for t in inst["trips"]:
        if rnd.random() < .3:
            t["cap"] = rnd.choice([x for x in (UNIT, 2 * UNIT, 3 * UNIT) if x <= cap])
    q = rnd.random()
    if q < .2:                   # hard: short days, short rides
        for t in inst["trips"]:
            t["to"] = rnd.choice([10, 20, 30]) * UNIT
        day = rnd.choice([30, 40, 60]) * UNIT
        for v in inst["veh"]:
            v["to"] = day
    elif q < .55:                # close together in time, so that sharing pays
        e = rnd.choice([0, 20])
        for t in inst["trips"]:
            t.update(oe=e * UNIT, ol=rnd.choice([50, 90, 1440]) * UNIT, de=0, dl=1440 * UNIT, to=rnd.choice([25, 40, 90]) * UNIT)
    if rnd.random() < .3:        # rides of about the length of the drive
        for t in inst["trips"]:
            t["to"] = inst["dist"][t["o"] - 1][t["d"] - 1] + rnd.choice([0, 1, 2, 4, 7]) * UNIT
            t["dd"] = rnd.choice([0, 1, 5, 9]) * UNIT
    if rnd.random() < .3:        # people who go to (or leave) the same places, where serving takes time
        for t in inst["trips"]:
            t["od"], t["dd"] = max(UNIT, t["od"]), max(UNIT, t["dd"])
            if rnd.random() < .5:
                t["d"] = rnd.choice([x["d"] for x in inst["trips"]])
            elif rnd.random() < .5:
                t["o"] = rnd.choice([x["o"] for x in inst["trips"]])
            if t["o"] == t["d"]:
                t["d"] = 1
    if rnd.random() < .2:        # quarters
        for t in inst["trips"]:
            for key in ("oe", "ol", "od", "dd", "to"):
                t[key] += rnd.randint(0, 3) * UNIT // 4
    return inst


def run_milp(w):
    import pulp
    jit = w.jit
    return attempt(lambda: jit.MilpAlgorithm(fleet=w.fleet, job=w.job,
                                             solver=pulp.PULP_CBC_CMD(msg=0, threads=1)).optimize(), seconds=120)


# ------------------------------------------------------------------ insertion runs
def by_vehicle(w, routes):
    """Contents of a set of routes as a sequence over the fleet (None when a vehicle has not exactly one)."""
    out = [None] * len(w.vehs)
    for r in routes:
        v = w.vi(r.vehicle)
        if v == 0 or out[v - 1] is not None:
            return None
        out[v - 1] = w.content(r)
    return None if None in out else out


def record_insertion(w, kw, initial=None, most=None):
    """Runs an insertion and records what the iterator held before each of its answers (stopped after `most` of them)."""
    jit = w.jit
    base = kw.get("iterator_cls") or jit.RankingInsertionIterator
    log = dict(snaps=[], chosen=[])

    class Recorder(base):
        def __next__(self_):
            if most is not None and len(log["chosen"]) >= most:
                raise StopIteration
            log["snaps"].append(snapshot(self_))
            r = super().__next__()
            log["chosen"].append(w.content(r))
            return r

    def snapshot(it):
        cont = getattr(it, "routes_container", None)
        pend = getattr(it, "pending_trips", None)
        return (None if cont is None else by_vehicle(w, cont.values()),
                None if pend is None else sorted(w.ti(t) for t in pend))
    args = dict(fleet=w.fleet, job=w.job, **{**kw, "iterator_cls": Recorder})
    if initial is not None:
        args["initial"] = initial
    result = jit.InsertionAlgorithm(**args).optimize()
    return log, result


def insertion_trace(w, ident, log, result, given, mode, crit, scheme, k, maximal, checks):
    """Normalises a recorded run; what the iterator did not show is derived from the routes it gave."""
    final = by_vehicle(w, result.planning.routes)
    n = len(w.inst["trips"])

    def pend(routes):
        served = {t for r in routes for s in r["s"] for t in s["P"]}
        return [t for t in range(1, n + 1) if t not in served]
    cur = log["snaps"][0][0] if log["snaps"] and log["snaps"][0][0] is not None else given
    p0 = log["snaps"][0][1] if log["snaps"] and log["snaps"][0][1] is not None else pend(cur)
    ev, state = [], cur
    for i, c in enumerate(log["chosen"]):
        nxt = log["snaps"][i + 1] if i + 1 < len(log["snaps"]) else (None, None)
        routes = nxt[0]
        if routes is None:
            routes = list(state)
            if 1 <= c["v"] <= len(routes):
                routes[c["v"] - 1] = c
        ev.append(dict(chosen=c, routes=routes, pending=nxt[1] if nxt[1] is not None else pend(routes)))
        state = routes
    return dict(id=ident, checks=checks, inst=w.inst, mode=mode, crit=crit, scheme=scheme, k=k, maximal=maximal,
                routes0=cur, pend0=p0, given=given, ev=ev, final=final if final is not None else [])


# ------------------------------------------------------------------ local search runs
def random_plan(w, rnd, pins=0.0, tries=30, keep=0.85, even=False, overlap=0.6):
    """Feasible routes (real objects) over the whole fleet with a random assignment of trips, and their contents."""
    inst = w.inst
    n, m = len(inst["trips"]), len(inst["veh"])
    best = None
    for _ in range(tries):
        left = [t for t in range(1, n + 1) if rnd.random() < keep]
        rnd.shuffle(left)
        contents, routes = [], []
        for v in range(1, m + 1):
            k = len(left) if v == m else len(left) // (m + 1 - v) if even else rnd.randint(0, len(left))
            mine, left = left[:k], left[k:]
            for _ in range(6):
                c = random_route(rnd, inst, v, mine, pins=pins, overlap=overlap)
                r = w.build(c)
                if r.feasible:
                    break
                mine = mine[:-1] if mine and rnd.random() < .6 else mine
            else:
                c = random_route(rnd, inst, v, [])
                r = w.build(c)
            contents.append(c)
            routes.append(r)
        if best is None or sum(len(c["s"]) for c in contents) > sum(len(c["s"]) for c in best[0]):
            best = (contents, routes)
        if sum(len(c["s"]) for c in contents) >= 2 * m + 2 * n - 2:
            break
    return best


def snug(w, rnd, objective, contents, routes):
    """A world whose ride limits are close to what the given plan needs (when it still respects them)."""
    if rnd.random() < .4:
        return w, routes
    inst = dict(w.inst, trips=[dict(t) for t in w.inst["trips"]])
    for r in routes:
        for x in r.planned_trips:
            if rnd.random() < .6:
                inst["trips"][w.ti(x.trip) - 1]["to"] = tick(x.duration) + rnd.choice([0, 0, 1, 2, 4]) * UNIT
    tighter = World(inst, objective)
    again = [tighter.build(c) for c in contents]
    return (tighter, again) if all(r.feasible for r in again) else (w, routes)


def brief(w, rnd, objective, contents, routes):
    """A world in which the given plan waits a moment at some stops."""
    inst = dict(w.inst, trips=[dict(t) for t in w.inst["trips"]])
    for r in routes:
        for x in r.planned_trips:
            if rnd.random() < .5:
                key, stop = rnd.choice([("oe", x.pickup), ("de", x.delivery)])
                inst["trips"][w.ti(x.trip) - 1][key] = tick(stop.arrival_time) + rnd.choice([1, 3, 9, 40, 200, 900])
    later = World(inst, objective)
    again = [later.build(c) for c in contents]
    return (later, again) if all(r.feasible for r in again) else (w, routes)


def record_search(w, initial, strat, **kw):
    jit = w.jit
    log = []

    class Recorder(searches(jit)[strat]):
        def improve(self_):
            res = super().improve()
            log.append(by_vehicle(w, res.planning.routes))
            return res
    alg = jit.LocalSearchAlgorithm(initial=initial, strategy_cls=Recorder, fleet=w.fleet, job=w.job, **kw)
    result = alg.optimize()
    return log, result
