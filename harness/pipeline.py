"""Recording solve runs with arbitrary parts, options and failures (C21); judged by spec/PipelineTrace.tla."""
from pathlib import Path
import copy, io, contextlib
from facts import *

EXTRA = [dict(alpha=1), dict(alpha=2), dict(alpha=1, beta="x"), dict(beta=None), dict(beta=False), dict(alpha=0)]
OPTIONS = [dict()] + EXTRA      # completed with options about formatters


def options(jit):
    del OPTIONS[1 + len(EXTRA):]
    OPTIONS.extend([dict(formatter_cls=jit.HashCodeStorerFormatter), dict(formatter_cls=jit.ColumnarStorerFormatter)])
    return [0, 1 + len(EXTRA), 2 + len(EXTRA)]


class Injected(Exception):
    pass


FAULTS = [Injected] * 3 + [type("Injected" + x.__name__, (x,), {}) for x in (
    OSError, PermissionError, ValueError, TypeError, KeyError, RuntimeError, NotImplementedError, ArithmeticError, MemoryError)]


def optid(kw):
    for k, o in enumerate(OPTIONS):
        if o == kw and all(type(o[x]) is type(kw[x]) for x in o):
            return k
    return -1


class Recorder:
    """Parts that write down what is asked from them; `plan` says which call of a run fails."""

    def __init__(self, jit, real, tmp, world):
        self.jit, self.real, self.tmp, self.w = jit, real, tmp, world
        self.ev, self.ids, self.keep, self.fault, self.count = [], {}, [], None, {}
        self.rebinds = False
        self.fault_cls = Injected

    def ident(self, obj):
        if obj is None:
            return 0
        if id(obj) not in self.ids:
            self.ids[id(obj)] = len(self.ids) + 1
            self.keep.append(obj)
        return self.ids[id(obj)]

    def emit(self, k, **kw):
        e = dict(k=k, id=0, by=0, fleet=0, job=0, res=0, opt=0, m=0, ok=True)
        e.update(kw)
        name = k if not e["m"] else "%s%d" % (k, e["m"])
        if self.fault == name:
            e["ok"] = False
        self.ev.append(e)
        if not e["ok"]:
            raise self.fault_cls(name)

    # -- classes ---------------------------------------------------------
    def loader(self):
        jit, rec = self.jit, self
        base = jit.FileLoader if self.real else jit.Loader

        class L(base):
            def __init__(self_, *args, **kwargs):
                own = {k: v for k, v in kwargs.items() if k == "file_path"}
                rec.emit("loader", id=rec.ident(self_), opt=optid({k: v for k, v in kwargs.items() if k not in own}))
                super().__init__(*args, **own)
                self_._made = {}

            if not rec.real:
                surface = property(lambda self_: None)

            def _part(self_, what):
                if what not in self_._made:
                    self_._made[what] = rec.make(what) if not rec.real else getattr(super(L, self_), what)
                rec.emit(what, by=rec.ident(self_), id=rec.ident(self_._made[what]))
                return self_._made[what]
            fleet = property(lambda self_: self_._part("fleet"))
            job = property(lambda self_: self_._part("job"))
        L.__abstractmethods__ = frozenset()
        return L

    def make(self, what):
        jit = self.jit
        return jit.Fleet(set(self.w.vehs)) if what == "fleet" else jit.Job(set(self.w.trips), objective_cls=jit.DialARideObjective)

    def method(self):
        jit, rec = self.jit, self
        base = jit.InsertionAlgorithm if self.real else jit.NaiveAlgorithm

        class M(base):
            def __init__(self_, fleet, job, **kwargs):
                rec.emit("method", id=rec.ident(self_), fleet=rec.ident(fleet), job=rec.ident(job), opt=optid(kwargs))
                super().__init__(fleet=fleet, job=job)

            def optimize(self_):
                res = super().optimize()
                rec.emit("optimize", by=rec.ident(self_), id=rec.ident(res))
                return res
        return M

    def storer(self, kind, m=0):
        jit, rec = self.jit, self
        real = {0: jit.storers.NaiveStorer, 1: jit.PromptStorer}[m % 2]
        base = jit.StorerSet if kind == "set" else (real if self.real else jit.Storer)

        class S(base):
            def __init__(self_, *args, **kwargs):
                result = kwargs.get("result", args[0] if args else None)
                extra = {k: v for k, v in kwargs.items() if k not in ("result", "storer_cls_set")}
                rec.emit("member" if m else "storer", id=rec.ident(self_), res=rec.ident(result), opt=optid(extra), m=m)
                super().__init__(*args, **kwargs)

            def store(self_):
                rec.emit("mstore" if m else "store", by=rec.ident(self_), m=m)
                if kind == "single" and rec.rebinds:      # what a storer does with its own reference is its own business
                    self_.result = copy.copy(self_.result)
                if kind == "set" or rec.real:
                    super().store()
        S.__name__ = "S%d" % m
        return S

    def dispatcher(self):
        jit, rec = self.jit, self

        class D(jit.StaticDispatcher):
            def __init__(self_, *args, **kwargs):
                names = ("loader_cls", "algorithm_cls", "storer_cls")
                own = {k: kwargs[k] for k in names if k in kwargs}
                self_.options = optid({k: v for k, v in kwargs.items() if k not in names})
                super().__init__(*args, **own)

            def run(self_):
                rec.emit("dispatcher", id=rec.ident(self_), opt=self_.options)
                return super().run()
        return D


def pipeline_case(job):
    ident, seed = job
    rnd = case_rnd("C21", seed)
    real = rnd.random() < .25
    inst = Gen(rnd).instance(n=2, m=1, metric="M")
    w = World(inst)
    jit = w.jit
    forstorer = options(jit)
    any_opt = range(1 + len(EXTRA))
    rec = Recorder(jit, real, None, w)
    rec.rebinds = rnd.random() < .4
    solvers, built, shape = [], [], []
    bases = None
    for _ in range(rnd.choice([1, 1, 2, 3])):
        kind = rnd.choice(["none", "single", "single", "set", "set"])
        n = rnd.choice([0, 1, 2, 3]) if kind == "set" else 0
        facade = kind != "none" and rnd.random() < .8
        c = dict(optL=rnd.choice(any_opt) if facade else 0, optM=rnd.choice(any_opt) if facade else 0,
                 optS=rnd.choice(forstorer) if facade and kind != "none" else 0,
                 optD=rnd.choice(any_opt) if facade else 0, kind=kind, n=n)
        if bases is None or rnd.random() < .4:       # often the same classes serve several solvers
            bases = dict(L=rec.loader(), M=rec.method(), D=rec.dispatcher(),
                         S={k: rec.storer(k) for k in ("single", "set")}, m=[rec.storer("member", i + 1) for i in range(3)])
        solvers.append(c)
        members = bases["m"][:n]
        members = set(members) if rnd.random() < .8 else list(members)
        built.append((facade, dict(bases), members))
    tmp = None

    def start(k):
        c, (facade, b, members) = solvers[k], built[k]
        lk = dict(OPTIONS[c["optL"]])
        if real:
            lk["file_path"] = tmp
        sk = dict(OPTIONS[c["optS"]])
        if c["kind"] == "set":
            sk["storer_cls_set"] = members
        if facade:
            kw = dict(algorithm=b["M"], loader=b["L"], storer=b["S"][c["kind"]], dispatcher=b["D"])
            for name, val in (("algorithm_kwargs", dict(OPTIONS[c["optM"]])), ("loader_kwargs", lk), ("storer_kwargs", sk),
                              ("dispatcher_kwargs", dict(OPTIONS[c["optD"]]))):
                if val or rnd.random() < .5:
                    kw[name] = val
            return jit.Solver(**kw).solve

        class L(b["L"]):
            def __init__(self_):
                super().__init__(**lk)
        storer = None
        if c["kind"] != "none":
            class S(b["S"][c["kind"]]):
                def __init__(self_, *a, **k):
                    super().__init__(*a, **k, **sk)
            storer = S
        args = (L, b["M"]) if storer is None and rnd.random() < .5 else (L, b["M"], storer)
        return (b["D"] if rnd.random() < .5 else jit.StaticDispatcher)(*args).run

    def faults(c):
        out = ["loader", "fleet", "job", "method", "optimize"]
        if c["kind"] != "none":
            out += ["storer", "store"]
        for i in range(c["n"]):
            out += ["member%d" % (i + 1), "mstore%d" % (i + 1)]
        return out
    calls = {}
    if real:
        os.makedirs(WORK, exist_ok=True)
        fd, name = tempfile.mkstemp(suffix=".txt", dir=WORK)
        tmp = Path(name)
        with os.fdopen(fd, "w") as f:
            f.write("2 4 400 3 90\n0 0 0 0 0 0 1440\n1 1 2 1 1 0 100\n2 4 1 1 1 0 100\n3 5 5 1 -1 0 200\n4 7 2 1 -1 0 200\n")
    bad = 0
    try:
        for _ in range(rnd.choice([1, 2, 3, 4])):
            k = rnd.randrange(len(solvers))
            if k not in calls or rnd.random() < .2:
                rec.fault = None
                calls[k] = start(k)
            rec.fault = rnd.choice(faults(solvers[k])) if rnd.random() < .35 else None
            bad += rec.fault is not None
            rec.fault_cls = rnd.choice(FAULTS)
            rec.ev.append(dict(k="run", id=k + 1, by=0, fleet=0, job=0, res=0, opt=0, m=0, ok=True))
            try:
                with contextlib.redirect_stdout(io.StringIO()), limited(30):
                    res = calls[k]()
                rec.fault = None
                rec.emit("return", res=rec.ident(res))
            except (Exception, Stuck) as exc:      # noqa
                rec.fault = None
                rec.emit("raise")
                rec.ev[-1]["what"] = str(exc)[:100] + type(exc).__name__
    finally:
        if tmp is not None:
            os.unlink(tmp)
    for e in rec.ev:
        e.setdefault("what", "")
    return dict(rec=dict(id=ident, solvers=solvers, ev=rec.ev),
                count={"runs": sum(e["k"] == "run" for e in rec.ev), "failing_runs": bad, "events": len(rec.ev),
                       "real_parts": int(real)})
