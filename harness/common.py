"""Shared machinery: instances, building and observing real jinete objects, running TLC, verdicts and evidence."""
import json, math, os, random, re, subprocess, sys, tempfile, time, shutil, logging, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
if os.path.isdir("/opt/venv/mplconfig"):
    os.environ.setdefault("MPLCONFIGDIR", "/opt/venv/mplconfig")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
logging.disable(logging.CRITICAL)
warnings.filterwarnings("ignore")

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
UNIT = 4096            # ticks per unit; every float used is a multiple of 2^-12, so sums are exact
INF = 1000000000
NOPIN = -1
BAD = -999999999       # a value that is not a number
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORK = os.path.join(VERIF, "work")


def tick(x):
    """Real number -> ticks (saturating)."""
    try:
        x = float(x)
    except Exception:
        return BAD
    if x != x:
        return BAD
    if x >= INF / UNIT:
        return INF
    if x <= -INF / UNIT:
        return -INF
    return int(round(x * UNIT))


def num(t):
    return math.inf if t >= INF else (t // UNIT if t % UNIT == 0 else t / UNIT)


def fnum(t):
    return math.inf if t >= INF else t / UNIT


# ------------------------------------------------------------------ instances (plain data, in ticks)
def mk_trip(o, d, oe=0, ol=INF, od=0, de=0, dl=INF, dd=0, cap=UNIT, to=INF, bonus=0):
    return dict(o=o, d=d, oe=oe, ol=ol, od=od, de=de, dl=dl, dd=dd, cap=cap, to=to, bonus=bonus)


def mk_veh(o, d=None, oe=0, dl=INF, cap=UNIT, to=INF):
    return dict(o=o, d=o if d is None else d, oe=oe, dl=dl, cap=cap, to=to)


class Gen:
    """Random instances. Everything is a whole number of units unless `fine`."""

    def __init__(self, rnd):
        self.r = rnd

    def positions(self, k, grid, metric, dims):
        r, pos = self.r, []
        if metric == "E":
            # collinear along (3,4) or a 3-4-5 rectangle family: all distances are whole
            if r.random() < 0.6:
                dx, dy = r.choice([(3, 4), (4, 3), (1, 0), (0, 1), (-3, 4)])
                for _ in range(k):
                    m = r.randint(0, max(2, grid // 2))
                    pos.append([m * dx, m * dy])
            else:
                s = r.choice([1, 2])
                for _ in range(k):
                    pos.append([s * r.choice([0, 3]), s * r.choice([0, 4])])
        else:
            for _ in range(k):
                pos.append([r.randint(-grid if r.random() < .3 else 0, grid) for _ in range(dims)])
        return pos

    def instance(self, n=None, m=None, metric=None, grid=6, tight=None, hetero=None, fine=False, homogeneous=False,
                 distinct=False, easy=False, dims=None):
        r = self.r
        n = r.randint(1, 4) if n is None else n
        m = r.randint(1, 3) if m is None else m
        metric = metric or ("E" if r.random() < 0.3 else "M")
        dims = dims or (2 if metric == "E" or r.random() < .85 else r.choice([1, 3]))
        places = max(2, int(1.6 * n) + 2) if r.random() < .7 else r.choice([2, 3])      # sometimes everybody meets
        raw = self.positions(places, grid, metric, dims)
        uniq = []
        for p in raw:
            if p not in uniq:
                uniq.append(p)
        pos = [[c * UNIT for c in p] for p in uniq]
        P = lambda: r.randint(1, len(pos))
        hetero = (r.random() < .4) if hetero is None else hetero
        tight = r.random() if tight is None else tight
        U = UNIT

        def lim(choices):
            v = r.choice(choices)
            return INF if v is None else v * U

        depot, depot2 = P(), P()
        base = mk_veh(depot, depot2 if r.random() < .3 else depot, oe=r.choice([0, 0, 0, 3, 10]) * U,
                      dl=lim([None, None, 60, 100, 150]), cap=r.choice([1, 2, 2, 3, 4]) * U,
                      to=lim([None, None, 30, 45, 60, 90]))
        if easy:
            base.update(dl=INF, to=INF, cap=4 * U)
        vehs = []
        for _ in range(m):
            v = dict(base)
            if hetero and not homogeneous:
                if r.random() < .5: v["cap"] = r.choice([0, 1, 2, 3, 5]) * U
                if r.random() < .4: v["oe"] = r.choice([0, 5, 20]) * U
                if r.random() < .4: v["to"] = lim([None, 25, 50, 80])
                if r.random() < .4: v["dl"] = lim([None, 70, 120])
                if r.random() < .4: v["o"] = P()
                if r.random() < .4: v["d"] = P()
            vehs.append(v)
        trips = []
        sizes = [1, 1, 1, 1, 2, 2, 3] + ([0] if r.random() < .4 else [])
        for _ in range(n):
            o, d = P(), P()
            e = r.randint(0, 40)
            if r.random() < tight:
                w = r.choice([0, 2, 4, 8, 15])
                ol = e + w
            else:
                ol = r.choice([None, e + 40, e + 80])
            de = r.choice([0, 0, e + r.randint(0, 12), e + r.randint(5, 30)])
            dl = r.choice([None, None, de + r.choice([3, 8, 15, 30, 60])]) if not easy else None
            same = r.random() < .5
            od = r.choice([0, 0, 1, 2, 4])
            dd = od if same else r.choice([0, 1, 3, 5])
            to = r.choice([None, None, 8, 12, 20, 30]) if not easy else None
            trips.append(mk_trip(o, d, oe=e * U, ol=INF if ol is None else ol * U, od=od * U, de=de * U,
                                 dl=INF if dl is None else dl * U, dd=dd * U,
                                 cap=r.choice(sizes) * U, to=INF if to is None else to * U,
                                 bonus=r.choice([0, 1, 2, 7]) * U))
        if fine:
            for t in trips:
                for key in ("oe", "ol", "od", "de", "dl", "dd", "cap", "to"):
                    if t[key] < INF and r.random() < .5:
                        t[key] = max(0, t[key] + r.randint(-9, 9))
            for v in vehs:
                for key in ("oe", "dl", "cap", "to"):
                    if v[key] < INF and r.random() < .5:
                        v[key] = max(0, v[key] + r.randint(-9, 9))
        dist = distances(pos, metric)
        for v in vehs:      # every vehicle can at least drive straight from its start to its end
            direct = dist[v["o"] - 1][v["d"] - 1]
            v["to"] = max(v["to"], direct)
            v["dl"] = max(v["dl"], v["oe"] + direct)
        return dict(metric=metric, pos=pos, trips=trips, veh=vehs, dist=dist)


def distances(pos, metric):
    out = []
    for a in pos:
        row = []
        for b in pos:
            if metric == "M":
                row.append(sum(abs(x - y) for x, y in zip(a, b)))
            else:
                s = sum(((x - y) // UNIT) ** 2 for x, y in zip(a, b))
                q = math.isqrt(s)
                assert q * q == s, "not a whole distance"
                row.append(q * UNIT)
        out.append(row)
    return out


class World:
    """The jinete objects of an instance, with index maps to observe them."""

    def __init__(self, inst, objective="DialARide", objective_cls=None, job_kwargs=None, trip_name=str, veh_name=str):
        import jinete as jit
        self.jit, self.inst = jit, inst
        metric = jit.DistanceMetric.MANHATTAN if inst["metric"] == "M" else jit.DistanceMetric.EUCLIDEAN
        self.surface = jit.GeometricSurface(metric)
        P = lambda k: self.surface.get_or_create_position([num(c) for c in inst["pos"][k - 1]])
        self.vehs = []
        for k, v in enumerate(inst["veh"]):
            lone = v["o"] == v["d"] and (k + len(inst["trips"])) % 2 == 0       # no end service of its own
            o = jit.Service(P(v["o"]), earliest=num(v["oe"]), latest=num(v["dl"]) if lone else math.inf)
            if lone:
                self.vehs.append(jit.Vehicle(veh_name(k), o, capacity=num(v["cap"]), timeout=num(v["to"])))
            else:
                d = jit.Service(P(v["d"]), latest=num(v["dl"]))
                self.vehs.append(jit.Vehicle(veh_name(k), o, d, capacity=num(v["cap"]), timeout=num(v["to"])))
        self.trips = []
        for k, t in enumerate(inst["trips"]):
            o = jit.Service(P(t["o"]), earliest=num(t["oe"]), latest=num(t["ol"]), duration=num(t["od"]))
            d = jit.Service(P(t["d"]), earliest=num(t["de"]), latest=num(t["dl"]), duration=num(t["dd"]))
            self.trips.append(jit.Trip(trip_name(k), o, d, capacity=num(t["cap"]), on_time_bonus=num(t["bonus"]),
                                       timeout=num(t["to"])))
        self.P = P
        self.fleet = jit.Fleet(set(self.vehs))
        cls = objective_cls or {"DialARide": jit.DialARideObjective, "TaxiSharing": jit.TaxiSharingObjective,
                                "HashCode": jit.HashCodeObjective}[objective]
        self.job = jit.Job(set(self.trips), objective_cls=cls)
        self.tid = {id(t): k + 1 for k, t in enumerate(self.trips)}
        self.vid = {id(v): k + 1 for k, v in enumerate(self.vehs)}
        self.pid = {tuple(num(c) for c in p): k + 1 for k, p in reversed(list(enumerate(inst["pos"])))}

    def ti(self, t):
        return self.tid.get(id(t), 0)

    def vi(self, v):
        return self.vid.get(id(v), 0)

    def pi(self, p):
        return self.pid.get(tuple(p.coordinates), 0)

    # -- observation -------------------------------------------------------
    def content(self, route, pins="start"):
        """Order, places and trips; pin: announced start ("start"), requested start ("own")."""
        out = []
        for s in route.stops:
            if pins == "start" or not hasattr(s, "_starting_time"):
                pin = tick(s.starting_time)
            else:
                own = s._starting_time
                pin = NOPIN if own is None else tick(own)
            out.append(dict(p=self.pi(s.position),
                            P=sorted(self.ti(x.trip) for x in s.pickup_planned_trips),
                            D=sorted(self.ti(x.trip) for x in s.delivery_planned_trips), pin=pin))
        return dict(v=self.vi(route.vehicle), s=out)

    def links(self, route):
        """For each stop: index of the previous stop, and for each trip handled there the stops its record points to."""
        ids = {id(s): k + 1 for k, s in enumerate(route.stops)}
        out = []
        for s in route.stops:
            prev = 0 if s.previous is None else ids.get(id(s.previous), -1)
            pt = [[self.ti(x.trip), ids.get(id(x.pickup), -1), ids.get(id(x.delivery), -1), self.vi(x.vehicle)]
                  for x in list(s.pickup_planned_trips) + list(s.delivery_planned_trips)]
            out.append(dict(prev=prev, pt=sorted(pt), v=self.vi(s.vehicle)))
        return out

    def times(self, route):
        """Everything a user reads about the timetable (cached values included)."""
        rows = [dict(arr=tick(s.arrival_time), st=tick(s.starting_time), dep=tick(s.departure_time),
                     load=tick(s.capacity), wait=tick(s.waiting_time), tr=tick(s.transit_time),
                     dist=tick(s.distance), ear=tick(s.earliest), lat=tick(s.latest), ld=tick(s.load_time))
                for s in route.stops]
        return dict(rows=rows, dur=tick(route.duration), dist=tick(route.distance), wait=tick(route.waiting_time),
                    transit=tick(route.transit_time), fdep=tick(route.first_departure_time),
                    ldep=tick(route.last_departure_time))

    def verdicts(self, route):
        pts = sorted([self.ti(x.trip), bool(x.feasible), tick(x.duration)] for x in route.planned_trips)
        return dict(route=bool(route.feasible), pts=pts, stops=[bool(s.feasible) for s in route.stops])

    def full(self, route, pins="own"):
        d = self.content(route, pins)
        d["links"] = self.links(route)
        d["t"] = self.times(route)
        d["ok"] = self.verdicts(route)
        return d

    def plan(self, routes, pins="start"):
        """Routes of a plan, ordered by vehicle."""
        return sorted((self.content(r, pins) for r in routes), key=lambda d: (d["v"], json.dumps(d)))

    def build(self, content):
        """A real route with the given content (via the public constructors)."""
        jit = self.jit
        v = self.vehs[content["v"] - 1]
        stops, prev, pts = [], None, {}
        for c in content["s"]:
            s = jit.Stop(v, self.P(c["p"]), prev, starting_time=None if c["pin"] < 0 else num(c["pin"]))
            for t in c["P"]:
                pts[t] = jit.PlannedTrip(v, self.trips[t - 1], s, None)
            for t in c["D"]:
                pts[t].delivery = s
                s.append_delivery(pts[t])
            stops.append(s)
            prev = s
        return jit.Route(v, stops)

    def result(self, routes, algorithm=None):
        """A result holding the given routes, produced by a trivial solving method."""
        jit = self.jit

        class Fixed(jit.Algorithm):
            def _optimize(self_):
                return jit.Planning(set(routes))
        return Fixed(fleet=self.fleet, job=self.job).optimize()


def size(rnd, usual, lo=17, hi=34, often=.02):
    """A number of trips or vehicles: the usual one, now and then a large one."""
    large = rnd.random() < often and not (STOP is not None and STOP.value)
    return rnd.randint(lo, hi) if large else usual


def random_route(rnd, inst, v, trips, merge=0.0, pins=0.0, overlap=0.6):
    """Random well-formed route content serving `trips` with vehicle v."""
    todo, aboard, ev = list(trips), [], []
    rnd.shuffle(todo)
    while todo or aboard:
        if todo and (not aboard or rnd.random() < overlap):
            t = todo.pop()
            ev.append(("P", t))
            aboard.append(t)
        else:
            t = aboard.pop(rnd.randrange(len(aboard)))
            ev.append(("D", t))
    V = inst["veh"][v - 1]
    s = [dict(p=V["o"], P=[], D=[], pin=NOPIN)]
    for kind, t in ev:
        T = inst["trips"][t - 1]
        p = T["o"] if kind == "P" else T["d"]
        last = s[-1]
        if (len(s) > 1 and last["p"] == p and rnd.random() < merge and t not in last["P"]):
            last[kind].append(t)
        else:
            s.append(dict(p=p, P=[t] if kind == "P" else [], D=[t] if kind == "D" else [], pin=NOPIN))
    s.append(dict(p=V["d"], P=[], D=[], pin=NOPIN))
    for k, st in enumerate(s):
        if rnd.random() < pins:
            st["pin"] = rnd.randint(0, 70) * UNIT
        st["P"].sort(), st["D"].sort()
    return dict(v=v, s=s)


# ------------------------------------------------------------------ TLC
class TLCError(Exception):
    pass


def gist(out):
    """The part of TLC's output that says what went wrong."""
    keep = [l for l in out.splitlines() if not re.match(r"(Parsing file|Semantic processing|Linting of|Warning)", l)]
    k = next((i for i, l in enumerate(keep) if "rror" in l), 0)
    return "\n".join(keep[max(0, k - 12):k + 40])


STOP = None      # set once a call got stuck: 1: the remaining cases are skipped, 2: only the large ones


def _guarded(job):
    fn, x, deadline = job
    if STOP.value == 1 or time.time() > deadline:
        return None
    try:
        return fn(x)
    except Exception as exc:
        import traceback
        tb = traceback.extract_tb(exc.__traceback__)
        inside = [f for f in tb if f.filename.startswith(REPO + "/")]
        if not inside:
            raise
        return dict(raised=dict(name=fn.__name__, what="%s: %s" % (type(exc).__name__, str(exc)[:200]),
                                where="%s:%s" % (inside[-1].name, inside[-1].lineno),
                                tb=traceback.format_exception(exc)[-6:], ctx=repr(x)[:300]))


def parallel(fn, items, jobs=8, budget=400):
    """[fn(x) for x in items] over processes; fn must be a module-level function with picklable results.
    Items that do not fit in the time budget are skipped (their result is left out)."""
    import multiprocessing as mp
    global STOP
    items = list(items)
    ctx = mp.get_context("fork")
    if STOP is None:
        STOP = ctx.Value("b", 0)
    work = [(fn, x, time.time() + budget) for x in items]
    if len(items) < 4 or os.environ.get("VERIF_SERIAL"):
        out = [_guarded(x) for x in work]
    else:
        with ctx.Pool(min(jobs, len(items))) as pool:
            out = pool.map(_guarded, work, chunksize=max(1, min(8, len(items) // (jobs * 8))))
    return [r for r in out if r is not None]


def case_rnd(*key):
    """The random source of one case: depends only on the seed and the case."""
    return random.Random("-".join(map(str, (SEED,) + key)))

def run_tlc(module, cfg, env=None, workers=8, extra=(), timeout=800, heap="6g", deadlock=False):
    """Runs TLC on spec/<module>.tla with the given cfg text; returns (stdout, stats)."""
    os.makedirs(WORK, exist_ok=True)
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="tlc-", dir=WORK)
    try:
        cfgf = os.path.join(d, module + ".cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dtlc2.TLC.stopAfter=%d" % max(1, timeout - 10),
               "-cp", JAR, "tlc2.TLC", "-config", cfgf, "-metadir", os.path.join(d, "meta"), "-workers", str(workers),
               "-lncheck", "final", "-nowarning", "-cleanup", "-noGenerateSpecTE"]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(extra) + [os.path.join(VERIF, "spec", module + ".tla")]
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout + 60)
        out = p.stdout
        if os.environ.get("VERIF_TIMES"):
            print("%s: %.1fs" % (module, time.time() - t0), file=sys.stderr)
        st = dict(states=0, distinct=0, rc=p.returncode)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            st["states"], st["distinct"] = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"The number of states generated: (\d+)", out)
        if m:
            st["states"] = st["distinct"] = int(m[-1])
        return out, st
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tlc_ok(out, st):
    return st["rc"] == 0 and ("No error has been found" in out or "Finished in" in out) and "Error:" not in out


def write_json(obj, name="data"):
    os.makedirs(WORK, exist_ok=True)
    fd, path = tempfile.mkstemp(prefix=name + "-", suffix=".json", dir=WORK)
    with os.fdopen(fd, "w") as f:
        json.dump(obj, f)
    return path


EVAL_RE = re.compile(r"Attempted to|evaluating the nested|The exception was a|was not in the domain|In applying the function")
V_RE = re.compile(r'^<<"V", (.*)>>$')
D_RE = re.compile(r'^<<"D", (.*)>>$')


def parse_verdicts(out):
    bad, done = [], []
    for line in out.splitlines():
        line = line.strip()
        m = V_RE.match(line)
        if m:
            bad.append([x.strip().strip('"') for x in m.group(1).split(",")])
            continue
        m = D_RE.match(line)
        if m:
            done.append([x.strip().strip('"') for x in m.group(1).split(",")])
    return bad, done


# ------------------------------------------------------------------ check results
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.assumptions, self.extra = [], [], {}
        self.violations = []      # (key, description, replay object)
        self.rnd = random.Random(SEED * 1000003 + sum(map(ord, prop)))
        self.quick = TIER != "thorough"

    def model(self, out, st, what):
        """Account for a model-checking run of the specification itself."""
        self.states += st["distinct"]
        self.transitions += st["states"]
        self.extra.setdefault("model_runs", []).append(dict(what=what, states=st["distinct"], transitions=st["states"]))
        if not tlc_ok(out, st):
            raise TLCError("model checking of %s failed:\n%s" % (what, gist(out)))

    def judge(self, module, traces, consts="", init="Init", nxt="Next", what=None, chunk=None, timeout=700):
        """Validates recorded traces with a trace specification giving total verdicts.
        Each trace is a dict with "id"; the spec prints <<"V", id, step, clause>> and <<"D", id, n>>."""
        if not traces:
            return
        cfg = "INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\n%s\n" % (init, nxt, consts)
        chunk = chunk or len(traces)
        parts = [traces[a:a + chunk] for a in range(0, len(traces), chunk)]
        odd = 0
        while parts:
            part = parts.pop(0)
            path = write_json(part, module)
            try:
                out, st = run_tlc(module, cfg, env={"DATA": path}, timeout=timeout)
            finally:
                os.unlink(path)
            bad, done = parse_verdicts(out)
            if not tlc_ok(out, st):
                if not EVAL_RE.search(out):
                    raise TLCError("trace validation by %s failed:\n%s" % (module, gist(out)))
                # some trace holds values the specification has no meaning for: find it
                if len(part) > 1:
                    if odd < 3:
                        parts[:0] = [part[:len(part) // 2], part[len(part) // 2:]]
                    continue
                odd += 1
                self.violate(dict(clause="meaningless", step=0, trace=str(part[0]["id"])),
                             "%s: trace %s holds values without meaning: %s" % (what or module, part[0]["id"], gist(out)[:600]),
                             dict(module=module, trace=part[0]))
                continue
            ids = {str(t["id"]) for t in part}
            fin = {d[0] for d in done}
            if ids != fin:
                raise TLCError("%s judged %d of %d traces\n%s" % (module, len(fin & ids), len(ids), out[-2000:]))
            self.states += st["distinct"]
            self.transitions += st["states"]
            self.traces += len(part)
            byid = {str(t["id"]): t for t in part}
            seen = set()
            for v in bad:
                key = tuple(v)
                if key in seen:
                    continue
                seen.add(key)
                self.violate(dict(clause=v[2] if len(v) > 2 else v[-1], step=v[1], trace=v[0]),
                             "%s: trace %s step %s breaks %s" % (what or module, v[0], v[1], ",".join(v[2:])),
                             dict(module=module, verdict=v, trace=byid.get(v[0])))

    def violate(self, key, text, replay):
        self.violations.append((key, text, replay))

    def finish(self):
        known = load_known(self.prop)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        fresh, printed = [], set()
        for key, text, replay in self.violations:
            hit = next((k for k in known if matches(k, key, replay)), None)
            if hit is not None:
                if hit["what"] not in printed:
                    printed.add(hit["what"])
            else:
                fresh.append((key, text, replay))
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples[:3])
        cov.update(self.extra)
        ev = dict(property=self.prop, tier="quick" if self.quick else "thorough", seed=SEED, level=self.level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(fresh))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if fresh:
            os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
            path = os.path.join(VERIF, "evidence", "replay", "%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump([dict(key=k, text=t, replay=r) for k, t, r in fresh[:20]], f, indent=1, default=str)
            for k, t, r in fresh[:8]:
                print("  " + t[:400])
            print("  (%d violations in total)" % len(fresh))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s ok: %d states, %d transitions, %d traces validated, %.1fs" %
              (self.prop, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 0


def load_known(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            d = json.loads(line)
            if d.get("property") == prop and d.get("status") == "known":
                out.append(d)
    return out


def matches(known, key, replay):
    return all(key.get(a) == b for a, b in known.get("match", {"__never__": 1}).items())
