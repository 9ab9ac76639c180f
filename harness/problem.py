"""One problem solved, stored and plotted several times (C26); recorded for spec/CopyTrace.tla."""
import pulp
from describe import *


def told(w, x):
    """An option's value, as far as it can be told apart."""
    if isinstance(x, dict):
        return sorted(([str(k), told(w, v)] for k, v in x.items()), key=lambda q: q[0])
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [told(w, v) for v in x]
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted((told(w, v) for v in x), key=str)
    if isinstance(x, type):
        return x.__name__
    return repr(x)


def service(w, s):
    return dict(at=[tick(c) for c in s.position.coordinates], k=w.pi(s.position), ear=tick(s.earliest), lat=tick(s.latest), dur=tick(s.duration))


def problem(w, jobs, fleet):
    """Everything a user has handed over: who is in it, and what is said about each."""
    n = len(w.inst["pos"])
    return dict(
        members=dict(fleet=sorted(w.vi(v) for v in fleet.vehicles), jobs=[sorted(w.ti(t) for t in j.trips) for j in jobs],
                     types=[type(fleet.vehicles).__name__] + [type(j.trips).__name__ for j in jobs]),
        aims=[[j.objective_cls.__name__, type(j.objective).__name__] for j in jobs],
        vehicles=[dict(name=str(v.identifier), o=service(w, v.origin), d=service(w, v.destination), cap=tick(v.capacity),
                       to=tick(v.timeout)) for v in w.vehs],
        trips=[dict(name=str(t.identifier), o=service(w, t.origin), d=service(w, t.destination), cap=tick(t.capacity),
                    to=tick(t.timeout), bonus=tick(t.on_time_bonus), load=bool(t.capacity != 0)) for t in w.trips],
        drives=[[tick(w.P(a).distance_to(w.P(b))) for b in range(1, n + 1)] for a in range(1, n + 1)])


def outcome(w, res):
    """What a plan says, its routes in the order of the vehicles (a plan's routes have none of their own)."""
    rs, v = sorted(res.routes, key=lambda r: w.vi(r.vehicle)), res.optimization_value
    return dict(routes=[[w.full(r), w.links(r)] for r in rs], aim=type(res.objective).__name__, feasible=bool(res.feasible),
                value=[tick(x) for x in (v if isinstance(v, tuple) else (v,))],
                coverage=repr(float(res.coverage_rate)), who=sorted(w.vi(v) for v in res.fleet.vehicles),
                asked=sorted(w.ti(t) for t in res.job.trips))


def methods(w, rnd, exact):
    """A solving method and its options, the kind of thing a user keeps and uses again: (name, class, options, starts)."""
    jit = w.jit
    ins = random_insertion_kwargs(rnd, jit)
    seedless = {k: v for k, v in ins.items() if k != "seed"}
    kind = rnd.choice(["insertion"] * 3 + ["search", "search", "iterative", "sequential", "grasp", "grasp", "naive"] + ["exact"] * 6 * exact)
    if kind == "insertion":
        return kind, jit.InsertionAlgorithm, ins, rnd.random() < .4
    if kind == "search":
        return kind, jit.LocalSearchAlgorithm, {"strategy_cls": searches(jit)[rnd.choice(sorted(searches(jit)))]}, True
    if kind == "iterative":
        return kind, jit.IterativeAlgorithm, dict(seedless, episodes=rnd.choice([1, 2, 3]), restart_mode=rnd.random() < .5), False
    if kind == "sequential":
        if rnd.random() < .4:
            return kind, jit.SequentialAlgorithm, {}, True
        stages = [(jit.InsertionAlgorithm, ins)] + [(jit.LocalSearchAlgorithm, {"strategy_cls": searches(jit)[s]})
                                                   for s in rnd.sample(sorted(searches(jit)), rnd.choice([1, 2]))]
        shared = rnd.random() < .5
        for _, kw in stages:
            if not shared:
                kw.update(fleet=w.fleet)
        return kind, jit.SequentialAlgorithm, {"algorithms_cls": stages}, False
    if kind == "grasp":
        kw = {"episodes": rnd.choice([1, 2])}
        if rnd.random() < .8:
            kw["first_solution_kwargs"] = {"episodes": rnd.choice([1, 2]), "randomized_size": rnd.choice([1, 2, 3])}
        if rnd.random() < .4:
            kw["local_search_kwargs"] = {"strategy_cls": searches(jit)[rnd.choice(sorted(searches(jit)))]}
        return kind, jit.GraspAlgorithm, kw, False
    if kind == "exact":
        return kind, jit.MilpAlgorithm, {"solver": pulp.PULP_CBC_CMD(msg=0, threads=1)}, False
    return kind, jit.NaiveAlgorithm, {}, False


def problem_case(job):
    ident, seed = job
    rnd = case_rnd("C26", seed)
    random.seed(rnd.random())
    exact = rnd.random() < .06
    inst = exact_instance(rnd, rnd.choice([None, 1, 2]), rnd.choice([None, 3, 4])) if exact else Gen(rnd).instance(n=rnd.choice([0, 1, 2, 3, 3, 4, 5]), m=rnd.randint(1, 3), dims=2,
                                                               easy=rnd.random() < .5, fine=rnd.random() < .15)
    w = World(inst, rnd.choice(OBJS))
    jit = w.jit
    ev, heap = [], []
    recs, counts = [], {}

    def new(read):
        if heap:
            ev.append(dict(op="new"))
        heap.append(read)
        see(len(heap))

    def see(h):
        ev.append(dict(op="read", h=h, r=heap[h - 1]()))

    def watch():
        for h in range(1, len(heap) + 1):
            see(h)

    def run():
        jobs = [w.job]
        if len(w.trips) > 1 and rnd.random() < .4:      # some of the requests are known before the others
            jobs.insert(0, jit.Job(set(rnd.sample(w.trips, rnd.randint(1, len(w.trips) - 1))), objective_cls=type(w.job.objective)))
        new(lambda: problem(w, jobs, w.fleet))
        kept, results, full = [], [], {}
        for step in range(rnd.choice([2, 2, 3, 4])):
            j = jobs[min(step, len(jobs) - 1)]
            if kept and rnd.random() < .5:              # the same method with the same options once more
                q = rnd.choice(kept)
            else:
                q = methods(w, rnd, exact)
                kept.append(q)
                new(lambda kw=q[2]: dict(options=told(w, kw)))
            name, cls, kw, starts = q
            if starts and not [r for r in results if r.job is j or cls is jit.InsertionAlgorithm]:
                first = jit.InsertionAlgorithm(fleet=w.fleet, job=j).optimize()
                results.append(first)
                full[id(first)] = True
                new(lambda r=first: outcome(w, r))
            args = dict(fleet=w.fleet, job=j)
            if starts:
                args["initial"] = rnd.choice([r for r in results if r.job is j or cls is jit.InsertionAlgorithm])
            method = cls(**args, **kw)
            res = method.optimize()
            counts["solved_" + name] = counts.get("solved_" + name, 0) + 1
            results.append(res)
            full[id(res)] = full[id(args["initial"])] if starts else name != "naive"
            new(lambda r=res: outcome(w, r))
            if j is w.job and kw.get("only_feasible", True) and name != "exact":
                recs.append(plan_record(w, res, "%s.%d" % (ident, step), name, full[id(res)], 0, ["unique", "structure", "limits"]))
            if rnd.random() < .5:
                stored(rnd.choice(results))
            watch()
        return True

    def stored(res):
        kind = rnd.choice(["columnar", "hashcode", "prompt", "plot"])
        counts["stored_" + kind] = counts.get("stored_" + kind, 0) + 1
        if kind == "plot":
            with Pictures(rnd):
                jit.GraphPlotStorer(result=res).store()
        elif kind == "prompt":
            with contextlib.redirect_stdout(io.StringIO()):
                jit.PromptStorer(result=res).store()
        else:
            cls = jit.ColumnarStorerFormatter if kind == "columnar" else jit.HashCodeStorerFormatter
            opts = {} if rnd.random() < .5 else {"remove_empty_routes": rnd.random() < .5}
            cls(result=res, **opts).format()
    got = attempt(run)
    if isinstance(got, Raised):
        return fail("problem", got, inst=inst)
    return dict(rec=dict(id=ident, ev=ev), plans=recs, count=counts)
