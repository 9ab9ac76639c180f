"""Reports written by the real formatters and storers (C20), read back and judged by spec/ReportTrace.tla."""
import ast, contextlib, io, locale
from pathlib import Path
from files import *

NUM = r"\s*(-?inf|nan|-?[0-9.]+(?:e[-+]?[0-9]+)?)"
POS = r"\(([^()]*)\)"
V_ROW = [re.compile(x) for x in (r'^ID: "(.*)"$', r"^Initial:\s*%s$" % POS, r"^Final:\s*%s$" % POS, r"^Earliest:%s$" % NUM,
                                 r"^Latest:%s$" % NUM, r"^Capacity:%s$" % NUM)]


class Unreadable(Exception):
    pass


def match(rx, line):
    m = re.match(rx, line)
    if not m:
        raise Unreadable("%r is not like %r" % (line, rx))
    return m


def place(text):
    return [tick(x) for x in text.split(",")]


def read_columnar(text, tab, w, res, n):
    lines = text.split("\n")
    at = [0]

    def take():
        at[0] += 1
        return lines[at[0] - 1]

    def inner(depth):
        l = take()
        if not l.startswith(tab * depth):
            raise Unreadable("indentation of %r" % l)
        return l[len(tab) * depth:]
    out = dict(readable=True, routes=[])
    out["uuid"] = match(r'^Planning UUID: "(.*)"$', take()).group(1) == str(res.planning.uuid)
    out["count"] = int(match(r'^Routes count: "(\d+)"$', take()).group(1))
    match(r"^Routes: $", take())
    tid = {t.identifier: k + 1 for k, t in enumerate(w.trips)}
    vid = {v.identifier: k + 1 for k, v in enumerate(w.vehs)}
    sep = re.escape(tab)
    while lines[at[0]].startswith(tab + "Vehicle: ") or lines[at[0]] == tab + "Vehicle: ":
        take()
        got = [match(rx, inner(2)).group(1) for rx in V_ROW]
        g = dict(v=vid.get(got[0], 0), initial=place(got[1]), final=place(got[2]), earliest=tick(got[3]), latest=tick(got[4]),
                 cap=tick(got[5]), trips=[], stops=[])
        g["ntrips"] = int(match(r'^Planned Trips: "(\d+)"$', inner(1)).group(1))
        for _ in range(g["ntrips"]):
            m = match(r"^ID: (\S+)\s*%sP: %s to %s%sTW:%s to%s%sWT:%s%sNT:%s%sLT:%s%sTT:%s%sT:%s to%s%sL:%s$" %
                      (sep, POS, POS, sep, NUM, NUM, sep, NUM, sep, NUM, sep, NUM, sep, NUM, sep, NUM, NUM, sep, NUM), inner(2))
            q = [tick(x) for x in m.groups()[3:]]
            g["trips"].append(dict(t=tid.get(m.group(1), 0), o=place(m.group(2)), d=place(m.group(3)), **dict(zip(
                ("from", "upto", "wait", "transit", "load", "duration", "pickup", "delivery", "cap"), q))))
        g["nstops"] = int(match(r'^Stops: "(\d+)"$', inner(1)).group(1))
        for _ in range(g["nstops"]):
            m = match(r"^ID: \[(.*?)\]\s*%sP: %s%sTW:%s to%s%sWT:%s%sNT:%s%sLT:%s%sDT:%s%sL:%s$" %
                      (sep, POS, sep, NUM, NUM, sep, NUM, sep, NUM, sep, NUM, sep, NUM, sep, NUM), inner(2))
            names = [x for x in m.group(1).split("|") if x]
            q = [tick(x) for x in m.groups()[2:]]
            g["stops"].append(dict(P=[tid.get(x[1:], 0) for x in names if x[0] == "P"],
                                   D=[tid.get(x[1:], 0) for x in names if x[0] == "D"], p=place(m.group(2)), **dict(zip(
                                       ("from", "upto", "wait", "transit", "load", "dep", "cap"), q))))
        out["routes"].append(g)
    if not out["routes"] and lines[at[0]] == "":
        take()
    out["time"] = match(r'^Computation time: "(.*)" seconds$', take()).group(1) == "%.4f" % res.computation_time
    out["coverage"] = tick(float(match(r'^Coverage Rate: "(.*)"$', take()).group(1)) * max(1, n))
    out["objective"] = match(r'^Objective: "(.*)"$', take()).group(1)
    out["value"] = [tick(x) if k or len(v) == 1 else int(x) for v in
                    [ast.literal_eval(match(r'^Optimization Value: "(.*)"$', take()).group(1))] for k, x in enumerate(v)]
    out["feasible"] = match(r'^Feasible: "(True|False)"$', take()).group(1) == "True"
    out["direction"] = match(r'^Direction: "(.*)"$', take()).group(1)
    if at[0] != len(lines):
        raise Unreadable("more lines: %r" % lines[at[0]:][:2])
    return out


def read_hashcode(text, w):
    tid = {t.identifier: k + 1 for k, t in enumerate(w.trips)}
    rows = text.split("\n") if text else []
    lines, exact = [], True
    for r in rows:
        words = r.split()
        if not words or not words[0].isdigit():
            raise Unreadable("line %r" % r)
        exact = exact and r == "%s %s" % (words[0], " ".join(words[1:]))
        lines.append(dict(n=int(words[0]), trips=[tid.get(x, 0) for x in words[1:]]))
    return dict(readable=True, lines=lines, sorted=sorted(rows) == rows, exact=exact)


def names(rnd):
    """Identifiers: plain numbers, and names with other letters (when the files here can hold them)."""
    wide = locale.getpreferredencoding(False).lower().replace("-", "") == "utf8"
    kind = rnd.choice(["plain", "words", "wide"])
    if kind == "plain":
        return {}
    if kind == "wide" and wide:
        return dict(trip_name=lambda k: "\u00d1u\u00f1oa-%d\u2192%d" % (k, k + 1), veh_name=lambda k: "\u51fa\u79df\u8f66 %d" % k)
    return dict(trip_name=lambda k: "request-%03d" % k, veh_name=lambda k: "taxi %d" % (9 + k))


def report_case(job):
    ident, seed = job
    rnd = case_rnd("C20", seed)
    random.seed(rnd.random())
    m = size(rnd, rnd.choice([0, 1, 1, 2, 2, 3, 4]), 5, 14)
    n = size(rnd, rnd.choice([0, 1, 2, 3, 4, 6, 12]))
    inst = Gen(rnd).instance(n=n, m=max(m, 1), easy=rnd.random() < .6, fine=rnd.random() < .3)
    obj = rnd.choice(OBJS)
    w = World(inst, obj, **names(rnd))
    jit = w.jit
    kind = rnd.choice(["columnar", "hashcode"])
    remove = rnd.choice([None, True, False])
    tab = rnd.choice([None, None, "\t", "    ", "-->", " "])

    def run():
        if rnd.random() < .4 and n < 13:
            res = jit.InsertionAlgorithm(fleet=w.fleet, job=w.job, **random_insertion_kwargs(rnd, jit)).optimize()
        else:
            left, routes = list(range(1, n + 1)), []
            rnd.shuffle(left)
            for v in range(1, m + 1):
                k = rnd.randint(0, len(left)) if rnd.random() < .8 else 0
                routes.append(w.build(random_route(rnd, inst, v, left[:k], merge=.5, pins=rnd.choice([0, .3]))))
                left = left[k:]
            res = w.result(routes)
        cls = jit.ColumnarStorerFormatter if kind == "columnar" else jit.HashCodeStorerFormatter
        opts = {}
        if remove is not None:
            opts["remove_empty_routes"] = remove
        if kind == "columnar" and tab is not None:
            opts["tab_character"] = tab
        text = cls(result=res, **opts).format()
        try:
            rep = read_columnar(text, tab or "  ", w, res, n) if kind == "columnar" else read_hashcode(text, w)
        except (Unreadable, IndexError, ValueError, SyntaxError) as exc:
            rep = dict(readable=False, why=str(exc)[:200])
        routes = [w.content(r, "own") for r in res.planning.routes]
        plain = cls(result=res).format()
        stored = storing(jit, res, cls, plain, rnd)
        return dict(id=ident, kind=kind, inst=inst, obj=obj, routes=routes,
                    remove=(kind == "hashcode") if remove is None else remove, report=rep, stored=stored, text=text[:3000])
    got = attempt(run)
    if isinstance(got, Raised):
        return fail("report", got, inst=inst)
    return dict(rec=got, count={"reports_" + kind: 1, "shown_stops": sum(len(r["s"]) for r in got["routes"])})


def storing(jit, res, cls, text, rnd):
    """What the storers leave behind is exactly the text."""
    os.makedirs(WORK, exist_ok=True)
    d = Path(tempfile.mkdtemp(prefix="store-", dir=WORK))
    try:
        f = d / "a.txt"
        if rnd.random() < .5:
            f.write_text("something longer that was there before\n" * 300)
        kw = dict(result=res, formatter_cls=cls)
        st = jit.FileStorer(file_path=f, **kw)
        for _ in range(rnd.choice([1, 1, 2])):
            st.store()
        okf = f.read_text() == text and len(list(d.iterdir())) == 1
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            jit.PromptStorer(**kw).store()
        okp = buf.getvalue() == text + "\n"
        g = d / "b.txt"

        class F(jit.FileStorer):
            def __init__(self_, *a, **k):
                super().__init__(g, *a, **k)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            jit.StorerSet({F, jit.PromptStorer}, **kw).store()
        oks = buf.getvalue() == text + "\n" and g.read_text() == text
        if cls is jit.ColumnarStorerFormatter:      # the default
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                jit.PromptStorer(result=res).store()
            okp = okp and buf.getvalue() == text + "\n"
        return dict(file=okf, prompt=okp, set=oks)
    finally:
        shutil.rmtree(d)
