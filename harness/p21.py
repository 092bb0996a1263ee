"""The optimisation plot, intercepted where the axes receive it."""
from optim import *


class Canvas:
    def __enter__(self):
        import matplotlib
        matplotlib.use("Agg", force=True)
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes
        self.plt, self.A, self.fields, self.lines = plt, Axes, [], []
        self.old = {k: getattr(Axes, k) for k in ("contour", "contourf", "plot")}
        rec = self

        def field(name):
            def call(ax, *a, **kw):
                rec.fields.append([np.asarray(z, float) for z in a[:3]])
                return rec.old[name](ax, *a, **kw)
            return call

        def line(ax, *a, **kw):
            out = rec.old["plot"](ax, *a, **kw)
            rec.lines += [np.asarray(l.get_xydata(), float) for l in out]
            return out
        Axes.contour, Axes.contourf, Axes.plot = field("contour"), field("contourf"), line
        self.show, plt.show = plt.show, lambda *a, **k: None
        return self

    def __exit__(self, *exc):
        for k, f in self.old.items():
            setattr(self.A, k, f)
        self.plt.show = self.show
        self.plt.close("all")


def drawn(args):
    import contextlib, io
    g, nudge = args
    p = g["p"]
    ev = event("plot", p, numbers(p, nudge))
    ev.update(T=fx(thick(p)), region=p["region"], pts=g["pts"])

    def go():
        with Canvas() as cv, contextlib.redirect_stdout(io.StringIO()):
            r = maximise(p, nudge, plot=True, points_to_plot=g["pts"])
        x, y, z = cv.fields[0]
        if x.ndim == 1:
            x, y = np.meshgrid(x, y)
        r0 = maximise(p, nudge)
        return {"fields": len(cv.fields), "field": [[fx(u), fx(v), fx(w)] for u, v, w in zip(x.ravel(), y.ravel(), z.ravel())],
                "lines": [fxs(l) for l in cv.lines], "x": fxs(r.x), "plain": fxs(r0.x)}
    return record(ev, dict(describe_problem("max", p, nudge), points_to_plot=g["pts"]), go, 200)


def run(chk, deep):
    load_repo()
    model(chk, deep)
    gs = draws("plot", 120 if deep else 22, 3, 300) + draws("plot", 30 if deep else 4, 4, 301) + (draws("fine", 24, 2, 302) if deep else [])
    pairs = settle(chk, drawn, [(g,) for g in gs], set())
    chk.samples = [i for _, i in pairs[:3]]
