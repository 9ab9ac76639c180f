"""Replaying behaviours of spec/Compose.tla on the real composite methods (C13), and real composite runs."""
from routes import *


def leaf(mark):
    return dict(k="leaf", mark=mark)


def terms(rnd, big):
    """Composite methods to explore: every small shape, and some larger ones drawn at random."""
    out = []
    for n in (1, 2, 3) + ((4,) if big else ()):
        for restart in (True, False):
            out.append(dict(k="iter", n=n, restart=restart, kid=leaf("a")))
    for n in (1, 2, 3):
        out.append(dict(k="seq", kids=[leaf("abc"[k]) for k in range(n)]))
    for restart in (True, False):
        out.append(dict(k="iter", n=2, restart=restart, kid=dict(k="seq", kids=[leaf("a"), leaf("b")])))
        out.append(dict(k="seq", kids=[leaf("a"), dict(k="iter", n=2, restart=restart, kid=leaf("b")), leaf("c")]))
    out.append(dict(k="seq", kids=[dict(k="seq", kids=[leaf("a"), leaf("b")]), leaf("c")]))
    return out


def large(rnd, n):
    out = []
    for _ in range(n):
        marks = iter("abcdefghijklmnopq")

        def term(depth, kinds):
            k = rnd.choice(kinds)
            if k == "leaf" or depth == 0:
                return leaf(next(marks))
            if k == "iter":
                return dict(k="iter", n=rnd.randint(1, 3), restart=rnd.random() < .5, kid=term(depth - 1, ["leaf", "seq"]))
            return dict(k="seq", kids=[term(depth - 1, ["leaf", "iter", "seq"]) for _ in range(rnd.randint(1, 3))])
        if rnd.random() < .4:
            out.append(dict(k="grasp", n=rnd.choice([1, 1, 2]), restart=rnd.random() < .5, fn=rnd.choice([1, 2]),
                            frestart=rnd.random() < .5, first=leaf("a"), improve=[leaf(x) for x in "bc"[:rnd.randint(1, 2)]]))
        else:
            out.append(term(3, ["iter", "seq"]))
    return out


def behaviours(ck, ts, maxcalls, simulate=None):
    path = write_json([dict(t=t) for t in ts], "compose")
    cfg = ("INIT Init\nNEXT Next\nCONSTANT MaxCalls = %d\n" % maxcalls +
           "INVARIANT InvIterated InvSequential InvGrasp InvKnownResult Emit\n")
    try:
        if simulate:
            out, st = run_tlc("Compose", cfg, env={"DATA": path}, workers=1,
                              extra=["-simulate", "num=%d" % simulate, "-depth", str(maxcalls + 2), "-seed", str(SEED)])
            if "Error:" in out:
                raise TLCError(gist(out))
            ck.states += st["distinct"]
            ck.transitions += st["states"]
        else:
            out, st = run_tlc("Compose", cfg, env={"DATA": path})
            ck.model(out, st, "Compose: %d methods, at most %d calls" % (len(ts), maxcalls))
    finally:
        os.unlink(path)
    res, seen = [], set()
    for line in out.splitlines():
        m = H_RE.match(line.strip())
        if m and line not in seen:
            seen.add(line)
            res.append((int(m.group(1)) - 1, json.loads(m.group(2).encode().decode("unicode_escape"))))
    if not res:
        raise TLCError("no behaviour:\n" + out[-1500:])
    return res


def catalogue():
    """Plans of quality 0 < 1 < 2 < 3 for the dial-a-ride objective."""
    U = UNIT
    inst = dict(metric="M", pos=[[0, 0], [2 * U, 0], [5 * U, 0], [9 * U, 0]],
                trips=[mk_trip(2, 3), mk_trip(2, 4)], veh=[mk_veh(1, cap=2 * U)])
    inst["dist"] = distances(inst["pos"], "M")
    e = lambda p, P=(), D=(): dict(p=p, P=list(P), D=list(D), pin=NOPIN)
    return inst, [dict(v=1, s=[e(1), e(1)]),
                  dict(v=1, s=[e(1), e(2, [2]), e(4, (), [2]), e(1)]),
                  dict(v=1, s=[e(1), e(2, [1]), e(3, (), [1]), e(1)]),
                  dict(v=1, s=[e(1), e(2, [1]), e(2, [2]), e(3, (), [1]), e(4, (), [2]), e(1)])]


def compose_case(job):
    """Runs the real composite method with leaves that return what the behaviour says."""
    term, beh, seed = job
    rnd = random.Random(seed)
    inst, plans = catalogue()
    w = World(inst)
    jit = w.jit
    calls, made = [], {}
    script = beh["script"]

    class Leaf(jit.Algorithm):
        def __init__(self_, fleet, job, mark=None, seed=None, initial=None, **kwargs):
            super().__init__(fleet=fleet, job=job)
            self_.mark, self_.seed, self_.initial = mark, seed, initial
            self_.extra = sorted(kwargs)

        def _optimize(self_):
            n = len(calls) + 1
            frm = 0 if self_.initial is None else made.get(id(self_.initial.planning), -1)
            calls.append(dict(mark=self_.mark, seed=self_.seed, frm=frm, ok=self_.fleet is w.fleet and self_.job is w.job))
            if n > len(script):
                raise AssertionError("a method was run more often than it should")
            o = script[n - 1]
            if o == 4 and self_.initial is not None:
                return self_.initial.planning
            plan = jit.Planning({w.build(plans[0 if o == 4 else o])})
            made[id(plan)] = n
            keep.append(plan)
            return plan
    keep = []
    base = dict(fleet=w.fleet, job=w.job)

    def kids(ts):
        return [make(t) for t in ts]

    def make(t):
        """(class, named arguments) of a method; fleet and job only at the top."""
        if t["k"] == "leaf":
            return Leaf, dict(mark=t["mark"])
        if t["k"] == "seq":
            return jit.SequentialAlgorithm, dict(algorithms_cls=rnd.choice([list, tuple])(kids(t["kids"])))
        if t["k"] == "iter":
            cls, kw = make(t["kid"])
            return jit.IterativeAlgorithm, dict(kw, algorithm_cls=cls, episodes=t["n"], restart_mode=t["restart"])
        cls, kw = make(t["first"])
        return jit.GraspAlgorithm, dict(
            first_solution_kwargs=dict(kw, algorithm_cls=cls, episodes=t["fn"], restart_mode=t["frestart"]),
            local_search_kwargs=dict(algorithms_cls=kids(t["improve"])), episodes=t["n"], restart_mode=t["restart"])

    def run():
        cls, kw = make(term)
        res = cls(**base, **kw).optimize()
        return made.get(id(res.planning), -1)
    got = attempt(run)
    if isinstance(got, Raised):
        return fail("composite method " + term["k"], got, term=term, behaviour=beh)
    bad = []
    exp = beh["calls"]
    if [c["mark"] for c in calls] != [c["mark"] for c in exp]:
        bad.append("parts_run_as_asked")
    elif [c["frm"] for c in calls] != [c["from"] for c in exp]:
        bad.append("started_from")
    if got != beh["res"]:
        bad.append("returned_plan")
    if any(not c["ok"] for c in calls):
        bad.append("same_fleet_and_job")
    for mark in {c["mark"] for c in calls}:
        seeds = [c["seed"] for c in calls if c["mark"] == mark]
        if len(set(seeds)) != len(seeds):
            bad.append("new_seed_each")
    if bad:
        return dict(bad=dict(clauses=bad, term=term, expected=beh, calls=calls, returned=got))
    return dict(count={"leaf_calls": len(calls), "kind_" + term["k"]: 1})


def real_composite_case(job):
    """Composite methods over the real parts: quality of every stage, and which options each part was given."""
    ident, seed = job
    rnd = case_rnd("C13", seed)
    random.seed(rnd.random())
    inst = Gen(rnd).instance(n=rnd.randint(1, 5), m=rnd.randint(1, 3), easy=rnd.random() < .5, fine=rnd.random() < .1)
    obj = rnd.choice(OBJS)
    w = World(inst, obj)
    jit = w.jit
    log = []
    kind = rnd.choice(["iterative", "sequential", "grasp", "grasp"])
    sname = rnd.choice(sorted(searches(jit)))
    iname = rnd.choice(sorted(strategies(jit)))
    value = lambda res: [int(res.optimization_value[0])] + [tick(x) for x in res.optimization_value[1:]] \
        if obj == "DialARide" else [tick(x) for x in res.optimization_value]

    phase, uses = ["rest"], set()       # which options the parts of a method make use of

    class Insert(jit.InsertionAlgorithm):
        def __init__(self_, *a, **k):
            self_.seen = k
            super().__init__(*a, **k)

        def optimize(self_):
            phase[0] = "first"
            try:
                res = super().optimize()
            finally:
                phase[0] = "rest"
            log.append(dict(part="insert", frm=[] if self_.initial is None else value(self_.initial), to=value(res),
                            opt=getattr(self_.seen.get("strategy_cls"), "__name__", "none")))
            return res

    class Search(searches(jit)[sname]):
        def improve(self_):
            before = value(self_.result)
            res = super().improve()
            log.append(dict(part="search", frm=before, to=value(res), opt=type(self_).__name__))
            return res

    class Insertion(strategies(jit)[iname]):
        def __init__(self_, *a, **k):
            uses.add((phase[0], "Insertion"))
            super().__init__(*a, **k)

    def told(base, name):
        def init(self_, *a, **k):
            uses.add((phase[0], name))
            base.__init__(self_, *a, **k)
        return type(name, (base,), dict(__init__=init))
    crits = [getattr(jit, CRITS[x]) for x in sorted(CRITS)]
    extra = {}      # further options of the two parts of GRASP
    for part in ("first", "rest"):
        extra[part] = {}
        if rnd.random() < .6:
            extra[part]["criterion_cls"] = told(rnd.choice(crits), "Criterion_" + part)
        if rnd.random() < .4:
            extra[part]["iterator_cls"] = told(rnd.choice([jit.RankingInsertionIterator, jit.BestStatelessInsertionIterator]),
                                               "Iterator_" + part)

    # the same options serve two problems, one after the other
    w2 = World(Gen(rnd).instance(n=rnd.randint(1, 2), m=1, easy=True), obj)
    if kind == "iterative":
        n, restart = rnd.choice([1, 2, 3]), rnd.random() < .5
        given = dict(n=n, restart=restart, search="none", insertion="Insertion")
        opts = dict(algorithm_cls=Insert, episodes=n, restart_mode=restart, strategy_cls=Insertion,
                    randomized_size=rnd.choice([1, 3]))
    elif kind == "sequential":
        given = dict(n=1, restart=True, search="Search", insertion="Insertion")
        opts = dict(strategy_cls=Search)
    else:
        n, fn = rnd.choice([1, 2]), rnd.choice([1, 2])
        given = dict(n=n * fn, restart=True, search="Search", insertion="Insertion")
        opts = dict(episodes=n, local_search_kwargs=dict(extra["rest"], strategy_cls=Search),
                    first_solution_kwargs=dict(extra["first"], algorithm_cls=Insert, episodes=fn, strategy_cls=Insertion,
                                               randomized_size=rnd.choice([1, 2])))
    given["uses"] = [["first", "Insertion"]] + [[part, x.__name__] for part in ("first", "rest") for x in extra[part].values()] \
        if kind == "grasp" else []
    snapshot = {k: dict(v) if isinstance(v, dict) else v for k, v in opts.items()}

    def solve(x):
        base = dict(fleet=x.fleet, job=x.job)
        if kind == "iterative":
            return jit.IterativeAlgorithm(**base, **opts).optimize()
        if kind == "grasp":
            return jit.GraspAlgorithm(**base, **opts).optimize()
        first = jit.InsertionAlgorithm(strategy_cls=jit.TailInsertionStrategy, **base).optimize()
        log.append(dict(part="insert", frm=[], to=value(first), opt="Insertion"))
        return jit.SequentialAlgorithm(initial=first, **base, **opts).optimize()

    def about(x, res):
        return all(w_ in x.vehs for w_ in (r.vehicle for r in res.planning.routes)) and \
            all(x.ti(t) > 0 for r in res.planning.routes for t in r.trips)

    def run():
        own = rnd.random() < .5
        if own:
            other = solve(w2)
            del log[:]
        res = solve(w)
        seen = list(log)
        if not own:
            other = solve(w2)
        log[:] = seen
        return given, value(res), bool(res.feasible), about(w, res) and about(w2, other), opts == snapshot
    got = attempt(run)
    if isinstance(got, Raised):
        return fail("composite " + kind, got, inst=inst)
    given, final, ok, about_it, untouched = got
    given["used"] = sorted(map(list, uses)) if kind == "grasp" else []
    return dict(rec=dict(id=ident, kind=kind, given=given, log=log, final=final, ok=ok, about=about_it, options=untouched),
                count={"real_" + kind: 1, "parts_run": len(log)})
