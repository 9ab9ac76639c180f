"""Plans plotted by the real graph storer (C24); the finished pictures are judged by spec/GraphTrace.tla."""
from reports import *


class Pictures:
    """What pyplot's figures hold at the moment they are saved or shown."""

    def __init__(self, rnd):
        self.seen, self.rnd = [], rnd

    def read(self, fig):
        from matplotlib.patches import FancyArrowPatch
        from matplotlib.collections import PathCollection
        at = lambda q: [tick(c) for c in q]
        dots, arrows, labels, cols = [], [], [], {}
        for ax in fig.axes:
            for c in ax.get_children():
                if isinstance(c, FancyArrowPatch):
                    a, b = c._posA_posB
                    col = cols.setdefault(tuple(round(float(x), 6) for x in c.get_edgecolor()), len(cols) + 1)
                    arrows.append(dict(a=at(a), b=at(b), col=col))
                elif isinstance(c, PathCollection):
                    dots += [at(q) for q in c.get_offsets().tolist()]
            for t in ax.texts:
                if t.get_text() != "":
                    labels.append(dict(at=at(t.get_position()), text=t.get_text()))
        return dict(dots=dots, arrows=arrows, labels=labels)

    def __enter__(self):
        import matplotlib.figure as mf
        import matplotlib.pyplot as plt
        self.plt, self.mf = plt, mf
        self.old = mf.Figure.savefig, plt.show
        real = mf.Figure.savefig

        def savefig(fig, fname, *a, **k):
            d = dict(how="file", name=os.fspath(fname), **self.read(fig))
            if self.rnd.random() < .2:
                real(fig, fname, *a, **k)
                with open(fname, "rb") as f:
                    d["png"] = f.read(8) == b"\x89PNG\r\n\x1a\n"
            else:
                open(fname, "wb").close()
            self.seen.append(d)

        def show(*a, **k):
            for n in plt.get_fignums():
                self.seen.append(dict(how="show", name="", **self.read(plt.figure(n))))
            plt.close("all")      # as when the windows are closed
        mf.Figure.savefig = savefig
        plt.show = show
        return self

    def __exit__(self, *exc):
        self.mf.Figure.savefig, self.plt.show = self.old
        self.plt.close("all")


def plot_case(job):
    ident, seed = job
    rnd = case_rnd("C24", seed)
    random.seed(rnd.random())
    os.makedirs(WORK, exist_ok=True)
    d = Path(tempfile.mkdtemp(prefix="plot-", dir=WORK))
    recs = []
    try:
        with Pictures(rnd) as pics:
            for step in range(rnd.choice([1, 2, 3])):
                m, n = size(rnd, rnd.choice([0, 1, 1, 2, 3, 4]), 5, 14), size(rnd, rnd.choice([0, 1, 2, 3, 4, 6]))
                inst = Gen(rnd).instance(n=n, m=max(1, m), dims=2, easy=rnd.random() < .6)
                w = World(inst)
                jit = w.jit

                def run():
                    if rnd.random() < .3 and n < 13:
                        res = jit.InsertionAlgorithm(fleet=w.fleet, job=w.job, **random_insertion_kwargs(rnd, jit)).optimize()
                    else:
                        left, routes = list(range(1, n + 1)), []
                        rnd.shuffle(left)
                        for v in range(1, m + 1):
                            k = rnd.randint(0, len(left)) if rnd.random() < .8 else 0
                            routes.append(w.build(random_route(rnd, inst, v, left[:k], merge=.5)))
                            left = left[k:]
                        res = w.result(routes)
                    before = [w.full(r) for r in res.routes]
                    name = d / ("p%d.png" % step) if rnd.random() < .75 else None
                    cut = len(pics.seen)
                    how = rnd.choice(["plain", "plain", "set", "default"]) if name is None else rnd.choice(["plain", "plain", "set"])
                    kw = {} if how == "default" else dict(file_path=name)
                    if how == "set":
                        class G(jit.GraphPlotStorer):
                            def __init__(self_, *a, **k):
                                super().__init__(name, *a, **k)

                        class Silent(jit.Storer):
                            def store(self_):
                                pass
                        jit.StorerSet({G, Silent}, result=res).store()
                    else:
                        jit.GraphPlotStorer(result=res, **kw).store()
                    got = pics.seen[cut:]
                    want = ("show", "") if name is None else ("file", str(name))
                    place = len(got) == 1 and (got[0]["how"], got[0]["name"]) == want and got[0].get("png", True) and \
                        sorted(os.listdir(d)) == sorted({os.path.basename(p["name"]) for p in pics.seen if p["how"] == "file"})
                    pic = got[-1] if got else dict(dots=[], arrows=[], labels=[])
                    return dict(id="%s.%d" % (ident, step), inst=inst, routes=[w.content(r) for r in res.routes],
                                dots=pic["dots"], arrows=pic["arrows"], labels=pic["labels"],
                                kept=dict(place=place, plan=[w.full(r) for r in res.routes] == before))
                got = attempt(run)
                if isinstance(got, Raised):
                    return fail("plot", got, inst=inst)
                recs.append(got)
    finally:
        shutil.rmtree(d)
    return dict(recs=recs, count={"pictures": len(recs), "arrows": sum(len(r["arrows"]) for r in recs)})
