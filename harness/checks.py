"""One function per property: builds what is needed, drives the code, judges with the specification.

Cases are run by module-level functions over several processes; each returns a dict with
"rec" (a record to judge) and/or "raised" (the code under test raised or did not answer)."""
from drivers import *

MILP_SLACK = 40


def collect(ck, outs):
    """Turns the cases' results into records; exceptions of the code under test are violations."""
    recs = []
    for o in outs:
        if o.get("raised"):
            r = o["raised"]
            ck.violate(dict(clause="raised", what=r["what"].split(":")[0], where=r["where"].split(":")[0]),
                       "%s raised %s (%s)" % (r["name"], r["what"], r["where"]), r)
        if o.get("rec"):
            recs.append(o["rec"])
        recs.extend(o.get("recs", ()))
        for key, n in o.get("count", {}).items():
            ck.extra[key] = ck.extra.get(key, 0) + n
    return recs


# ------------------------------------------------------------------ C01-C03: returned plans
def plan_case(job):
    prop, ident, checks, kind = job
    rnd = case_rnd(prop, ident)
    random.seed(rnd.random())
    if kind == "milp":
        few = rnd.random() < .2      # more vehicles than there is work for
        inst = exact_instance(rnd, rnd.randint(1, 2), rnd.randint(3, 4)) if few else exact_instance(rnd)
        if few and rnd.random() < .3:
            inst["trips"] = []
        w = World(inst)
        res = run_milp(w)
        if isinstance(res, Raised):
            return fail("milp", res, inst=inst)
        return dict(rec=plan_record(w, res, ident, "milp", True, MILP_SLACK, checks), count={"runs_milp": 1})
    if kind in ("big", "benchmark") and common.STOP is not None and common.STOP.value:
        return {}
    big = rnd.random() < .3
    g = Gen(rnd)
    if kind == "benchmark":
        inst = benchmark_instance(rnd)
    elif kind == "big":
        inst = g.instance(n=rnd.randint(7, 10) if rnd.random() < .6 else rnd.randint(18, 26), m=rnd.randint(1, 4),
                          tight=rnd.choice([0, .3, 1]), easy=rnd.random() < .3, grid=rnd.choice([3, 6, 12]))
    elif kind == "search_plan":
        inst = g.instance(n=rnd.randint(2, 4), m=rnd.choice([1, 1, 2, 3]), tight=rnd.choice([0, 0, .3]), easy=rnd.random() < .7)
        for t in inst["trips"]:      # rides which some orders of the stops make too long
            if rnd.random() < .6:
                t["to"] = inst["dist"][t["o"] - 1][t["d"] - 1] + rnd.choice([0, 2, 4, 8, 12]) * UNIT
    else:
        inst = g.instance(n=rnd.randint(4, 7) if big else rnd.randint(0, 4), fine=rnd.random() < .2, easy=rnd.random() < .15)
    w = World(inst, rnd.choice(OBJS))
    name, res, full, x = run_method(w, rnd, "big" if kind == "benchmark" else kind)
    if kind == "benchmark":
        name, x = "benchmark " + name, 200
    if isinstance(res, Raised):
        return fail(name, res, inst=inst)
    rec = plan_record(w, res, ident, name, full, x, checks)
    return dict(rec=rec, count={"runs_" + name.split()[0]: 1,
                                "loaded_routes": sum(any(s["P"] for s in r["s"]) for r in rec["routes"])})


def plan_check(ck, checks):
    n, m, q = (1500, 8, 300) if ck.quick else (20000, 100, 5000)
    if ck.prop == "C03" and ck.quick:
        m, q = 100, 1500
    jobs = [(ck.prop, "m%d" % k, checks, "milp") for k in range(m)] + [(ck.prop, k, checks, None) for k in range(n)] + \
           [(ck.prop, "s%d" % k, checks, "search_plan") for k in range(q)]
    jobs = [(ck.prop, "f%d" % k, checks, "benchmark") for k in range(60 if ck.quick else 800)] + jobs
    jobs = [(ck.prop, "b%d" % k, checks, "big") for k in range(240 if ck.quick else 1500)] + jobs
    recs = collect(ck, parallel(plan_case, jobs))
    ck.judge("PlanTrace", recs, what="plan", chunk=3000)
    ck.samples += [dict(method=r["method"], routes=[dict(v=q["v"], s=q["s"]) for q in r["routes"][:1]]) for r in recs[-3:]]


def C01(ck):
    model_planner(ck, ["InvUnique", "InvPending"])
    plan_check(ck, ["unique"])


def C02(ck):
    model_planner(ck, ["InvStructure"])
    plan_check(ck, ["structure"])


def C03(ck):
    model_planner(ck, ["InvLimits", "InvVerdict"])
    plan_check(ck, ["limits"])


# ------------------------------------------------------------------ C09, C10: insertion runs
def idle_content(inst, v):
    V = inst["veh"][v - 1]
    return dict(v=v, s=[dict(p=V["o"], P=[], D=[], pin=V["oe"]), dict(p=V["d"], P=[], D=[], pin=V["oe"] + inst["dist"][V["o"] - 1][V["d"] - 1])])


def insertion_case(job):
    prop, ident, checks, small = job
    rnd = case_rnd(prop, ident)
    random.seed(rnd.random())
    exact = prop == "C10" or small
    many = ident[0] == "b" if isinstance(ident, str) else False       # a large demand, the first steps only
    crowd = ident[0] == "s" if isinstance(ident, str) else False     # a large demand of which hardly anything can be served
    rival = ident[0] == "r" if isinstance(ident, str) else False     # several vehicles, rankings that lose offers now and then
    soon = prop == "C09" and small and not crowd and rnd.random() < .5
    if crowd:
        n = rnd.randint(9, 40)
    elif many:
        n = rnd.randint(25, 40)
    elif rival:
        n = rnd.choice([4, 5, 5, 6])
    elif soon:
        n = rnd.choice([3, 4, 5, 5, 6, 7])
    elif exact:
        n = rnd.choice([1, 2, 3, 3, 3, 4, 5] if prop == "C09" else [1, 2, 3, 3, 3, 4])
    else:
        n = rnd.randint(1, 7)
    inst = Gen(rnd).instance(n=n, m=rnd.choice([2, 2, 3]) if rival else rnd.randint(1, 3), homogeneous=rnd.random() < .75 or prop == "C09" and small,
                             fine=rnd.random() < .15, easy=rnd.random() < (.15 if n < 5 else .4))
    if soon:      # everybody wants to be fetched soon: most plans leave someone out
        for t in inst["trips"]:
            t.update(oe=0, ol=rnd.randint(6, 40) * UNIT, de=0, dl=INF, to=INF, od=rnd.choice([0, 0, 1]) * UNIT)
        for v in inst["veh"]:
            v.update(oe=0, dl=INF, to=INF)
    if crowd:
        for t in inst["trips"]:
            t.update(de=0, dl=0, dd=UNIT)
        for t in rnd.sample(inst["trips"], rnd.randint(1, 2)):
            t.update(oe=0, ol=INF, od=0, dl=INF, dd=0, to=INF)
        for v in inst["veh"]:
            v.update(oe=0, dl=INF, to=INF)
    w = World(inst)
    jit = w.jit
    scheme = rnd.choice(["ranking", "best"] if prop == "C10" else ["ranking", "ranking", "best", "first"])
    if rival or soon and rnd.random() < .6:
        scheme = "ranking"
    mode = rnd.choice(["all", "all", "all", "sample", "tail"])
    crit = rnd.choice(sorted(CRITS))
    k = 1 if rival else rnd.choice([1, 1, 1, 2, 3]) if scheme != "first" else 1
    kw = dict(strategy_cls=strategies(jit)[mode], iterator_cls=iterators(jit)[scheme],
              criterion_cls=getattr(jit, CRITS[crit]), seed=rnd.randint(0, 999))
    if scheme != "first":
        kw["randomized_size"] = k
    if many or crowd:
        limit = rnd.choice([None, n, n + 1, 2 * n])
    else:
        limit = rnd.choice([None, 24, n, n]) if exact or rnd.random() < .6 else rnd.choice([1, 2])
    if scheme == "ranking":
        kw["neighborhood_max_size"] = limit
    same = all(v == inst["veh"][0] for v in inst["veh"])
    name = "insertion " + show(kw)

    def run():
        initial, given = None, None
        if rnd.random() < .3 and not many:
            initial = jit.InsertionAlgorithm(fleet=w.fleet, job=jit.Job(set(t for t in w.trips if rnd.random() < .5),
                                                                         objective_cls=None),
                                             strategy_cls=jit.TailInsertionStrategy).optimize()
            given = by_vehicle(w, initial.planning.routes)
        else:
            given = [w.content(jit.Route(v)) for v in w.vehs]
        log, result = record_insertion(w, kw, initial, rnd.choice([1, 2, 3]) if many else None)
        return log, result, given
    got = attempt(run)
    if isinstance(got, Raised):
        return fail(name, got, inst=inst)
    log, result, given = got
    maximal = small and same and mode != "tail" and (limit is None or limit >= n or scheme != "ranking")
    tr = insertion_trace(w, ident, log, result, given, "tail" if mode == "tail" else "all", crit, scheme, k, maximal, checks)
    return dict(rec=tr, count={"steps": len(tr["ev"]), "scheme_" + scheme: 1, "maximality_judged": int(maximal),
                               "left_pending": int(bool(tr["ev"] and tr["ev"][-1]["pending"]))})


def C09(ck):
    model_planner(ck, ["InvPending", "PropServedGrow", "PropStuckMaximal", "Terminates"], strats=(), episodes=1, live=True,
                  homogeneous=True)
    a, b = (600, 700) if ck.quick else (6000, 5000)
    jobs = [("C09", k, ["account"], False) for k in range(a)] + \
           [("C09", "x%d" % k, ["account", "maximal"], True) for k in range(b)] + \
           [("C09", "b%d" % k, ["account"], False) for k in range(a // 15)] + \
           [("C09", "s%d" % k, ["account", "maximal"], True) for k in range(b // 10)]
    recs = collect(ck, parallel(insertion_case, jobs))
    ck.judge("InsertionTrace", recs, what="insertion run", chunk=1500)
    ck.samples += recs[:1]


def C10(ck):
    for crit in (["ShortestTime", "LongestUtil"] if ck.quick else sorted(CRITS)):
        model_planner(ck, ["InvVerdict", "InvPending"], strats=(), episodes=1, crit=crit)
    n = 320 if ck.quick else 4000
    jobs = [("C10", k, ["choice"], True) for k in range(n)] + [("C10", "b%d" % k, ["choice"], True) for k in range(n // 10)] + \
           [("C10", "r%d" % k, ["choice"], True) for k in range(n)]
    recs = collect(ck, parallel(insertion_case, jobs))
    ck.judge("InsertionTrace", recs, what="greedy choice", chunk=1000)
    ck.samples += recs[:1]


def model_planner(ck, props, insts=None, strats=("reallocation", "one_shift", "two_opt"), obj="DialARide", crit="any",
                  mode="all", episodes=2, restart="FALSE", homogeneous=None, n=None, m=2, live=False):
    """Model-checks Planner (all choices explored) on small random instances."""
    rnd = case_rnd("model", ck.prop, crit, mode, restart)
    k = insts or (5 if ck.quick else 40)
    data = [Gen(rnd).instance(n=n or rnd.choice([2, 2, 3]), m=m, metric="M", grid=4, fine=rnd.random() < .2,
                              homogeneous=homogeneous if homogeneous is not None else rnd.random() < .6,
                              easy=rnd.random() < .2)
            for _ in range(k)]
    path = write_json(data, "planner")
    inv = [p for p in props if p.startswith("Inv")]
    tmp = [p for p in props if not p.startswith("Inv")]
    cfg = ("%s\nCONSTANTS\nInsts <- MCInsts\nMode = \"%s\"\nCrit = \"%s\"\nObj = \"%s\"\nStrats = {%s}\nEpisodes = %d\n"
           "Restart = %s\nMCStrats = {}\n" % ("SPECIFICATION Spec" if live else "INIT Init\nNEXT Next", mode, crit, obj,
                                           ", ".join('"%s"' % x for x in strats), episodes, restart))
    if inv:
        cfg += "INVARIANT " + " ".join(inv) + "\n"
    if tmp:
        cfg += "PROPERTY " + " ".join(tmp) + "\n"
    try:
        out, st = run_tlc("MCPlanner", cfg, env={"DATA": path})
    finally:
        os.unlink(path)
    ck.model(out, st, "Planner: %s (criterion %s, positions %s, %d instances)" % (" ".join(props), crit, mode, k))


# ------------------------------------------------------------------ C11, C12: local search
def search_case(job):
    prop, ident, checks = job
    rnd = case_rnd(prop, ident)
    random.seed(rnd.random())
    optimum = prop == "C12"
    strat = rnd.choice(["reallocation", "one_shift", "two_opt"])
    if optimum:
        n, m = (rnd.choice([1, 2, 3, 3, 4, 5]), 2) if strat == "reallocation" else (rnd.randint(2, 4), rnd.choice([1, 1, 2]))
    else:
        n, m = rnd.randint(1, 6), rnd.randint(1, 3)
    large, several, climb = (isinstance(ident, str) and ident[0] == x for x in "bdr")
    if climb:        # a start from which many moves lead up: everybody is fetched first, then brought in any order
        strat = rnd.choice(["two_opt", "two_opt", "reallocation"])
        n, m = (7, 1) if strat == "two_opt" else (6, 2)
    if several:      # more idle vehicles than one, or more loaded ones than one
        n, m = (rnd.choice([1, 1, 2, 3]), rnd.choice([3, 4])) if strat == "reallocation" else (rnd.randint(4, 6), 2) if strat == "one_shift" else \
            (rnd.randint(6, 8), 2)
    if large:
        n, m = rnd.randint(7, 9 if optimum or strat == "reallocation" else 14), 2 if strat == "reallocation" else rnd.choice([1, 2])
    inst = Gen(rnd).instance(n=n, m=m, easy=large or several or rnd.random() < .6, fine=rnd.random() < .1, tight=rnd.choice([0, 0, .3]),
                             hetero=True if several and rnd.random() < .7 else None, grid=rnd.choice([4, 6, 9, 30] if climb else [4, 6, 9]))
    if climb:
        for t in inst["trips"]:
            t.update(oe=0, ol=INF, de=0, dl=INF, to=INF, cap=UNIT)
        for v in inst["veh"]:
            v.update(oe=0, dl=INF, to=INF, cap=9 * UNIT, o=rnd.randint(1, len(inst["pos"])))
            v["d"] = v["o"]
    obj = "DialARide" if optimum else rnd.choice(OBJS)
    w = World(inst, obj)
    jit = w.jit
    thr = {} if rnd.random() < .7 else {"no_improvement_threshold": rnd.choice([1, 2, 3])}
    name = "local search " + strat

    def run():
        nonlocal w
        if optimum or rnd.random() < .6:
            contents, routes = random_plan(w, rnd, pins=.15 if rnd.random() < .3 else 0, even=several and strat != "reallocation",
                                           overlap=1 if climb else .8 if several else .6, keep=1 if climb else .85)
            if not climb:
                w, routes = snug(w, rnd, obj, contents, routes)
            initial = w.result(routes)
        else:
            initial = jit.InsertionAlgorithm(fleet=w.fleet, job=w.job, **random_insertion_kwargs(rnd, jit)).optimize()
            contents = by_vehicle(w, initial.planning.routes)
        before = by_vehicle(w, initial.planning.routes)
        log, result = record_search(w, initial, strat, **thr)
        return contents, before, log, result
    got = attempt(run)
    if isinstance(got, Raised):
        return fail(name, got, inst=inst)
    contents, before, log, result = got
    final = by_vehicle(w, result.planning.routes)
    rec = dict(id=ident, checks=checks, inst=w.inst, obj=obj, strat=strat, routes0=contents,
               ev=[dict(after=a if a is not None else []) for a in log], initial=before,
               final=final if final is not None else [], feasible=bool(result.feasible))
    moved = sum(a != b for a, b in zip([before] + log, log))
    return dict(rec=rec, count={"passes": len(log), "improving_passes": moved, "search_" + strat: 1})


def C11(ck):
    model_planner(ck, ["InvVerdict", "PropMoves", "Terminates"], episodes=1, live=True)
    n = 2000 if ck.quick else 12000
    recs = collect(ck, parallel(search_case, [("C11", "b%d" % k, ["outcome"]) for k in range(n // 10)] +
                                      [("C11", "d%d" % k, ["outcome"]) for k in range(n // 10)] +
                                      [("C11", k, ["outcome"]) for k in range(n)]))
    ck.judge("SearchTrace", recs, what="local search", chunk=2000)
    ck.samples += recs[:1]


def C12(ck):
    model_planner(ck, ["PropOptimum", "PropMoves"], episodes=1)
    n = 800 if ck.quick else 6000
    recs = collect(ck, parallel(search_case, [("C12", "b%d" % k, ["optimum"]) for k in range(n // 10)] +
                                      [("C12", "d%d" % k, ["optimum"]) for k in range(n // 4)] +
                                      [("C12", "r%d" % k, ["optimum"]) for k in range(n // 10)] +
                                      [("C12", k, ["optimum"]) for k in range(n)]))
    ck.judge("SearchTrace", recs, what="local optimum", chunk=1000)
    ck.samples += recs[:1]


# ------------------------------------------------------------------ C04, C05, C07: route edits
from routes import *      # noqa


def C04(ck):
    model_edits(ck)
    rnd = case_rnd("C04")
    n, num = (400, 3200) if ck.quick else (1500, 24000)
    cases = [edit_case(rnd, big=not ck.quick or rnd.random() < .2) for _ in range(n)]
    replay_all(ck, "C04", cases, histories(ck, cases, num, 14))


def C05(ck):
    model_edits(ck, ["InvVerdict"])
    rnd = case_rnd("C05")
    n, num = (400, 3200) if ck.quick else (1500, 24000)
    cases = [edit_case(rnd, aimed=rnd.random() < .8) for _ in range(n)]
    replay_all(ck, "C05", cases, histories(ck, cases, num, 12))
    m = 400 if ck.quick else 6000
    recs = collect(ck, parallel(verdict_case, [("C05", k) for k in range(m)]))
    ck.judge("PlanTrace", recs, what="verdict", chunk=3000)


def verdict_case(job):
    """Whole plans and results, near the limits."""
    prop, ident = job
    rnd = case_rnd(prop, ident)
    m = size(rnd, rnd.choice([0, 1, 1, 2, 3]), 5, 14)
    n = size(rnd, rnd.randint(1, 5))
    inst = Gen(rnd).instance(n=n, m=max(m, 1), easy=rnd.random() < .7, tight=rnd.choice([0, .1]))
    left, contents = list(range(1, n + 1)), []
    for v in range(1, m + 1):
        k = rnd.randint(0, len(left))
        contents.append(random_route(rnd, inst, v, left[:k], merge=.4, pins=rnd.choice([0, .2])))
        left = left[k:]
    if contents and rnd.random() < .8:
        inst = aim(rnd, inst, rnd.choice(contents))

    def run():
        w = World(inst)
        routes = [w.build(c) for c in contents]
        res = w.result(routes)
        if rnd.random() < .5:      # ask in different orders
            for r in routes:
                [bool(x.feasible) for x in r.planned_trips] if rnd.random() < .5 else bool(r.feasible)
        rec = plan_record(w, res, ident, "built", False, 0, ["verdict"])
        rec["planok"] = bool(res.feasible)
        if bool(res.planning.feasible) != rec["planok"]:
            raise AssertionError("plan and result disagree")
        return rec
    rec = attempt(run)
    if isinstance(rec, Raised):
        return fail("verdict", rec, inst=inst, contents=contents)
    return dict(rec=rec, count={"plans_judged": 1, "feasible_plans": int(rec["planok"]), "empty_plans": int(m == 0)})


def C07(ck):
    rnd = case_rnd("C07")
    model_edits(ck, ["InvShared", "InvOrdered"], ["PropCopies", "PropOthers"])
    n, num = (300, 1200) if ck.quick else (1500, 20000)
    cases = [edit_case(rnd) for _ in range(n)]
    hs = histories(ck, cases, num, 12, heap=4)
    recs = collect(ck, parallel(copy_case, [("e%d" % k, cases[c], h, k, True) for k, (c, h) in enumerate(hs)]))
    recs += collect(ck, parallel(deep_case, [("d%d" % k, k) for k in range(200 if ck.quick else 3000)]))
    ck.judge("CopyTrace", recs, what="copying", chunk=2000)
    ck.samples += recs[:1]


def C06(ck):
    n = 500 if ck.quick else 8000
    recs = collect(ck, parallel(candidates_case, [("c%d" % k, k) for k in range(n)]))
    ck.judge("CandidateTrace", recs, what="insertion search", chunk=1500)
    ck.samples += recs[:1]
    rnd = case_rnd("C06")
    n, num = (300, 1200) if ck.quick else (1500, 20000)
    cases = [edit_case(rnd) for _ in range(n)]
    replay_all(ck, "C06", cases, histories(ck, cases, num, 10, heap=5, nxt="SimNextOffers"))


def C08(ck):
    rnd = case_rnd("C08")
    n, num = (300, 1200) if ck.quick else (1500, 15000)
    cases = [edit_case(rnd) for _ in range(n)]
    hs = histories(ck, cases, num, 12, heap=6, nxt="SimNextOffers")
    recs = collect(ck, parallel(copy_case, [("e%d" % k, cases[c], h, k, False) for k, (c, h) in enumerate(hs)]))
    recs += collect(ck, parallel(search_unaltered_case, [("s%d" % k, k) for k in range(300 if ck.quick else 6000)]))
    ck.judge("CopyTrace", recs, what="search leaves alone", chunk=2000)
    ck.samples += recs[-1:]


def model_edits(ck, props=("InvOrdered", "InvRecurrence", "InvVerdict", "InvShared"), temporal=(), ops=None, cases=None):
    """Explores RouteEdit exhaustively up to a number of edits on small cases."""
    rnd = case_rnd("modeledits", ck.prop)
    data = []
    for _ in range(cases or (2 if ck.quick else 3)):
        inst = Gen(rnd).instance(n=2, m=1, metric="M", grid=3)
        data.append(dict(inst=inst, r=random_route(rnd, inst, 1, [1], merge=.5)))
    path = write_json(data, "edits")
    cfg = ("INIT Init\nNEXT Next\nCONSTANTS\nCases <- MCCases\nStarts = {%d}\nMaxOps = %d\nMaxHeap = 2\nVIEW MCView\n"
           "INVARIANT %s\n" % (15 * UNIT, ops or (3 if ck.quick else 4), " ".join(props)))
    if temporal:
        cfg += "PROPERTY %s\n" % " ".join(temporal)
    try:
        out, st = run_tlc("MCRouteEdit", cfg, env={"DATA": path})
    finally:
        os.unlink(path)
    ck.model(out, st, "RouteEdit: %s" % " ".join(list(props) + list(temporal)))


# ------------------------------------------------------------------ C14, C15, C16: values, scores, data
from facts import *      # noqa


def simple(ck, case, module, n, what, chunk=3000):
    recs = collect(ck, parallel(case, [("%s-%d" % (ck.prop, k), k) for k in range(n)]))
    ck.judge(module, recs, what=what, chunk=chunk)
    ck.samples += recs[:1]


def C14(ck):
    simple(ck, objective_case, "ObjectiveTrace", 1200 if ck.quick else 20000, "objective")


def C15(ck):
    simple(ck, criterion_case, "CriterionTrace", 900 if ck.quick else 15000, "criterion")


def C16(ck):
    out, st = run_tlc("Windows", "INIT Init\nNEXT Next\nCONSTANT Top = %d\nINVARIANT InvNoLooser InvNothingLost InvTight\n"
                      "CHECK_DEADLOCK FALSE\n" % (2 if ck.quick else 4))
    ck.model(out, st, "Windows: tightened windows are sound and exclude no visit times that respect the request")
    model_planner(ck, ["InvWindows"], strats=(), episodes=1)
    simple(ck, data_case, "DataTrace", 1500 if ck.quick else 25000, "data")


# ------------------------------------------------------------------ C13: composite methods
from compose import *      # noqa


def C13(ck):
    rnd = case_rnd("C13")
    small = terms(rnd, not ck.quick)
    jobs = [(small[t], b, k) for k, (t, b) in enumerate(behaviours(ck, small, 4))]
    if ck.quick and len(jobs) > 2500:
        jobs = rnd.sample(jobs, 2500)
    big = large(rnd, 60 if ck.quick else 600)
    jobs += [(big[t], b, k) for k, (t, b) in enumerate(behaviours(ck, big, 24, simulate=500 if ck.quick else 20000))]
    long = [dict(k="iter", n=rnd.choice([30, 40, 70, 120]), restart=r, kid=leaf("a")) for r in (True, False)]
    jobs += [(long[t], b, k) for k, (t, b) in enumerate(behaviours(ck, long, 120, simulate=20 if ck.quick else 200))]
    outs = parallel(compose_case, jobs)
    collect(ck, outs)
    for o in outs:
        if o.get("bad"):
            ck.violate(dict(clause=",".join(o["bad"]["clauses"])), "composite method %s: %s" % (
                o["bad"]["term"]["k"], ",".join(o["bad"]["clauses"])), o["bad"])
    ck.traces += len(outs)
    ck.samples += [dict(term=jobs[0][0], behaviour=jobs[0][1])]
    recs = collect(ck, parallel(real_composite_case, [("r%d" % k, k) for k in range(250 if ck.quick else 4000)]))
    ck.judge("ComposeTrace", recs, what="composite run")
    model_planner(ck, ["PropBest"], episodes=2, insts=3 if ck.quick else 20)
    model_planner(ck, ["PropBest"], episodes=2, restart="TRUE", insts=2 if ck.quick else 20)


# ------------------------------------------------------------------ C21: pipeline
from pipeline import *      # noqa


def C21(ck):
    kinds = ["none", "single", "set"]
    pairs = [("set", "single", 2)] if ck.quick else [(a, b, 3) for a in kinds for b in kinds]
    for a, b, n in pairs:
        cfg = ("INIT Init\nNEXT Next\nCONSTANTS\nSolvers <- MCSolvers\nMaxRuns = %d\nKind1 = \"%s\"\nKind2 = \"%s\"\n"
               "VIEW View\nINVARIANT Inv InvLive\n" % (n, a, b))
        out, st = run_tlc("MCPipeline", cfg)
        ck.model(out, st, "Pipeline: %s and %s storers, %d runs" % (a, b, n))
    simple(ck, pipeline_case, "PipelineTrace", 800 if ck.quick else 15000, "solve run")


# ------------------------------------------------------------------ C22: geometry
from surfaces import *      # noqa


def C22(ck):
    rnd = case_rnd("C22")
    small = [dict(metrics=m, coords=[[0, 0], [1, 2], [-1, 2]][:k]) for m, k in ((["M"], 3), (["E"], 3), (["M", "E"], 2))]
    path = write_json(small, "surfaces")
    try:
        out, st = run_tlc("Surface", "INIT Init\nNEXT Next\nCONSTANT MaxOps = %d\nVIEW View\n"
                          "INVARIANT InvMemo InvSymmetric InvZero InvTriangle\n" % (6 if ck.quick else 9), env={"DATA": path})
    finally:
        os.unlink(path)
    ck.model(out, st, "Surface: answers follow the metric whatever is remembered")
    n, num, ops = (400, 1600, 24) if ck.quick else (3000, 20000, 40)
    cases = [surface_setup(rnd) for _ in range(n)]
    hs = histories(ck, cases, num, ops, module="Surface",
                   cfg="INIT SimInit\nNEXT SimNext\nCONSTANT MaxOps = %d\nINVARIANT Emit\n" % ops)
    recs = collect(ck, parallel(surface_case, [("s%d" % k, cases[c], h, k) for k, (c, h) in enumerate(hs)]))
    ck.judge("SurfaceTrace", recs, what="surface", chunk=4000)
    ck.samples += recs[:1]


# ------------------------------------------------------------------ C18, C19: loaders
from files import *      # noqa


def loader_check(ck, fmt, where):
    n = 600 if ck.quick else 12000
    files = sorted(glob.glob(os.path.join(REPO, "res", "datasets", where)))
    if ck.quick:
        files = [f for f in files if os.path.getsize(f) < 9000]
    jobs = [("f%d" % k, k, fmt, f) for k, f in enumerate(files)] + [("g%d" % k, k, fmt, None) for k in range(n)]
    recs = collect(ck, parallel(loader_case, jobs))
    ck.judge("LoaderTrace", recs, what="loaded file", chunk=3000)
    ck.samples += recs[-1:]


def C18(ck):
    loader_check(ck, "cordeau", "cordeau-laporte/*.txt")


def C19(ck):
    loader_check(ck, "hashcode", "hashcode/*.in")


# ------------------------------------------------------------------ C20: reports
from reports import *      # noqa


def C20(ck):
    simple(ck, report_case, "ReportTrace", 800 if ck.quick else 12000, "report")


# ------------------------------------------------------------------ C17: exact method
def exact_case(job):
    ident, seed, n, m = job
    rnd = case_rnd("C17", seed)
    inst = exact_instance(rnd, n, m)
    if n == 0:
        inst["trips"] = []
    w = World(inst)
    t0 = time.time()
    res = run_milp(w)
    if isinstance(res, Raised):
        return fail("exact method", res, inst=inst)
    routes = w.plan(res.planning.routes)
    return dict(rec=dict(id=ident, inst=inst, routes=routes),
                count={"served_all": int(sum(len(s["P"]) for r in routes for s in r["s"]) == n), "solver_s": round(time.time() - t0, 1)})


def C17(ck):
    sizes = [(0, 1)] * 2 + [(0, 3)] * 2 + [(1, 1)] * 20 + [(1, 3)] * 8 + [(2, 4)] * 8 + [(2, 1)] * 90 + [(2, 2)] * 90 + [(3, 1)] * 90 + [(3, 2)] * 110 + [(3, 3)] * 30
    if not ck.quick:
        sizes = sizes * 5 + [(4, 1)] * 100 + [(4, 2)] * 100 + [(4, 3)] * 30
    recs = collect(ck, parallel(exact_case, [("e%d" % k, k, n, m) for k, (n, m) in enumerate(sizes)], budget=600))
    ck.judge("ExactTrace", recs, what="exact method", chunk=200)
    ck.samples += recs[:1]


# ------------------------------------------------------------------ C24: plots
from plots import *      # noqa


def C24(ck):
    simple(ck, plot_case, "GraphTrace", 400 if ck.quick else 5000, "picture")


# ------------------------------------------------------------------ C23: from the file to the report
from ends import *      # noqa


def C23(ck):
    n = 700 if ck.quick else 12000
    given = [f for f in sorted(glob.glob(os.path.join(REPO, "res", "datasets", "hashcode", "*.in"))) if os.path.getsize(f) < 2000]
    recs = collect(ck, parallel(end_case, [("f%d" % k, "f%d" % k, f) for k, f in enumerate(given)] + [("g%d" % k, k, None) for k in range(n)]))
    ck.judge("EndTrace", recs, what="solved file", chunk=2000)
    ck.samples += recs[-2:]


# ------------------------------------------------------------------ C25: descriptions
from describe import *      # noqa


def C25(ck):
    simple(ck, describe_case, "DescribeTrace", 800 if ck.quick else 12000, "description")


# ------------------------------------------------------------------ C26: the problem and the options stay as they are
from problem import *      # noqa


def C26(ck):
    outs = parallel(problem_case, [("C26-%d" % k, k) for k in range(500 if ck.quick else 10000)])
    recs = collect(ck, outs)
    ck.judge("CopyTrace", recs, what="problem used again", chunk=1500)
    ck.judge("PlanTrace", [r for o in outs for r in o.get("plans", ())], what="plan of a problem used again", chunk=3000)
    ck.samples += [dict(id=r["id"], ev=r["ev"][:2]) for r in recs[:1]]
