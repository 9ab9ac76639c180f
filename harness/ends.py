"""Whole solve runs, from a problem file to the stored report (C23); judged by spec/EndTrace.tla from rows and text alone."""
from types import SimpleNamespace
from plots import *


def solvable_cordeau(rnd):
    n, m = rnd.choice([0, 1, 2, 3, 3, 4, 5, 6]), rnd.choice([0, 1, 1, 2, 3])
    spots = Gen(rnd).positions(2 * n + 1 if rnd.random() < .8 else 3, rnd.choice([6, 10, 14]), "E", 2)
    at = lambda k: spots[k % len(spots)]
    whole = lambda a, b: math.isqrt((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2)
    L = max([whole(at(k), at(k + n)) for k in range(1, n + 1)] or [0]) + rnd.choice([0, 0, 3, 10, 30])
    rows = [[m, 2 * n, rnd.choice([30, 60, 120, 300, 480]), rnd.randint(1, 6), L], [0] + at(0) + [0, 0, 0, 1440]]
    q = [min(rows[0][3], rnd.choice([1, 1, 1, 2, 3])) for _ in range(n)]
    up, down = [], []
    for k in range(1, n + 1):
        e = rnd.randint(0, 90)
        narrow, wide = [e, e + rnd.choice([0, 5, 15, 40])], [0, 1440]
        if rnd.random() < .15:
            wide = [e // 2, e + rnd.randint(20, 200)]
        a, b = (narrow, wide) if rnd.random() < .5 else (wide, [narrow[0] + 20, narrow[1] + 20])
        if rnd.random() < .1:
            a, b = b, a
        s1 = rnd.choice([0, 1, 2, 5])
        s2 = s1 if rnd.random() < .5 else rnd.choice([0, 1, 3])
        up.append([k] + at(k) + [s1, q[k - 1]] + a)
        down.append([k + n] + at(k + n) + [s2, -q[k - 1]] + b)
    rows += up + down
    if rnd.random() < .3:
        rows.append([2 * n + 1] + at(0) + [0, 0, 0, 1440])
    return rows


def solvable_hashcode(rnd):
    R, C = rnd.choice([(3, 4), (10, 12), (6, 30)])
    n, m, T = rnd.choice([0, 1, 2, 3, 4, 6, 8]), rnd.choice([0, 1, 1, 2, 3]), rnd.choice([20, 60, 150, 400])
    rows = [[R, C, m, n, rnd.choice([0, 1, 2, 25]), T]]
    for _ in range(n):
        a, b, x, y = rnd.randint(0, R), rnd.randint(0, C), rnd.randint(0, R), rnd.randint(0, C)
        e = rnd.randint(0, T // 2) if rnd.random() < .8 else a + b
        rows.append([a, b, x, y, e, min(T, e + abs(a - x) + abs(b - y) + rnd.choice([0, 3, 10, 50]))])
    return rows


def whole_method(jit, rnd):
    """A solving method and its options, as given to the facade."""
    kind = rnd.choice(["insertion"] * 3 + ["iterative", "grasp", "sequential", "sequential"])
    kw = random_insertion_kwargs(rnd, jit)
    if kind == "insertion":
        return kind, (jit.InsertionAlgorithm, kw)
    kw.pop("seed", None)
    if kind == "iterative":
        return kind, (jit.IterativeAlgorithm, dict(kw, episodes=rnd.choice([1, 2, 3]), restart_mode=rnd.random() < .5))
    if kind == "grasp":
        g = {"episodes": rnd.choice([1, 2]), "first_solution_kwargs": {"episodes": rnd.choice([1, 2]), "randomized_size": rnd.choice([1, 2])}}
        if rnd.random() < .5:
            g["local_search_kwargs"] = {"strategy_cls": searches(jit)[rnd.choice(sorted(searches(jit)))]}
        return kind, (jit.GraspAlgorithm, g)
    stages = [(jit.InsertionAlgorithm, kw)]
    for _ in range(rnd.choice([1, 1, 2])):
        stages.append((jit.LocalSearchAlgorithm, {"strategy_cls": searches(jit)[rnd.choice(sorted(searches(jit)))]}))
        if rnd.random() < .4:
            stages.append((jit.InsertionAlgorithm, {}))
    return kind, (jit.SequentialAlgorithm, {"algorithms_cls": stages})


def end_case(job):
    import jinete as jit
    ident, seed, given = job
    rnd = case_rnd("C23", seed)
    random.seed(rnd.random())
    fmt = ("hashcode" if given.endswith(".in") else "cordeau") if given else rnd.choice(["cordeau", "cordeau", "hashcode"])
    rows = parse_rows(given, 1) if given else solvable_cordeau(rnd) if fmt == "cordeau" else solvable_hashcode(rnd)
    kind = "columnar" if fmt == "cordeau" or rnd.random() < .5 else "hashcode"
    how = rnd.choice(["prompt", "prompt", "file", "set"])
    os.makedirs(WORK, exist_ok=True)
    d = Path(tempfile.mkdtemp(prefix="end-", dir=WORK))
    try:
        src = d / "problem"

        def write(rows):
            """The text of the rows; when the file is rewritten its size may stay the same."""
            text = text_of(rnd, rows, 1)
            if src.exists() and rnd.random() < .7:
                text = text.rstrip()
                text += " " * (src.stat().st_size - len(text))
            elif rnd.random() < .5:
                text = text.rstrip() + " " * 200
            with open(src, "w", newline="") as f:
                f.write(text)
        write(rows)
        out = d / "report"
        lk = dict(file_path=src if rnd.random() < .5 else str(src))
        if fmt == "hashcode":
            lk["formatter_cls"] = jit.HashCodeLoaderFormatter
        elif rnd.random() < .5:
            lk["formatter_cls"] = jit.CordeauLaporteLoaderFormatter
        name, (cls, kw) = whole_method(jit, rnd)
        sk = {}
        if kind == "hashcode":
            sk["formatter_cls"] = jit.HashCodeStorerFormatter
        elif rnd.random() < .5:
            sk["formatter_cls"] = jit.ColumnarStorerFormatter
        opts = dict(loader_kwargs=lk, algorithm_kwargs=kw)
        if cls is not jit.InsertionAlgorithm or rnd.random() < .5:
            opts["algorithm"] = cls
        if how == "file":
            opts.update(storer=jit.FileStorer, storer_kwargs=dict(sk, file_path=out))
        elif how == "set":
            class F(jit.FileStorer):
                def __init__(self_, *a, **k):
                    super().__init__(out, *a, **k)
            opts.update(storer=jit.StorerSet, storer_kwargs=dict(sk, storer_cls_set={F, jit.PromptStorer}))
        else:
            opts["storer_kwargs"] = sk
        solver = jit.Solver(**opts)
        recs = []
        for turn in range(rnd.choice([1, 1, 2])):
            if turn and rnd.random() < .7:       # the file changes before it is solved again
                rows = parse_rows(given, 1) if given else solvable_cordeau(rnd) if fmt == "cordeau" else solvable_hashcode(rnd)
                write(rows)
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                res = attempt(solver.solve)
            if isinstance(res, Raised):
                return fail("solve " + name, res, rows=rows)
            said = buf.getvalue()
            kept = out.read_text() if out.exists() else None
            text = kept if how == "file" else said[:-1]
            stored = {"prompt": kept is None and said.endswith("\n"), "file": kept is not None and said == "",
                      "set": kept == said[:-1]}[how]
            n = (len(rows) - 1 if fmt == "hashcode" else rows[0][1] // 2)
            m = rows[0][2] if fmt == "hashcode" else rows[0][0]
            base = 0 if fmt == "hashcode" else 1
            w = SimpleNamespace(trips=[SimpleNamespace(identifier=str(k + base)) for k in range(n)],
                                vehs=[SimpleNamespace(identifier=str(k)) for k in range(m)])
            try:
                rep = read_columnar(text or "", "  ", w, res, n) if kind == "columnar" else read_hashcode(text or "", w)
            except (Unreadable, IndexError, ValueError, SyntaxError) as exc:
                rep = dict(readable=False, why=str(exc)[:200])
            value = res.optimization_value
            recs.append(dict(id="%s.%d" % (ident, turn), format=fmt, kind=kind, rows=rows, report=rep, text=(text or "")[:2000],
                             value=[int(x) if len(value) > 1 and not k else tick(x) for k, x in enumerate(value)],
                             feasible=bool(res.feasible), coverage=tick(res.coverage_rate * max(1, n)), stored=stored,
                             method=name))
        return dict(recs=recs, count={"solved_" + fmt: len(recs), "method_" + name: len(recs),
                                      "served": sum(r["coverage"] // UNIT for r in recs if n)})
    finally:
        shutil.rmtree(d)
