"""Every drawing of a session is intercepted at the renderer and checked against the specification's surface."""
from plates import *

MODEL = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Size = %d\nINVARIANT ModeIsHeld EdgesKept TurnedAlike SurfaceIsPointwise\n"


class Renderer:
    """Stands in for the 3-d surface call and the final show, and records what they got."""

    def __enter__(self):
        import matplotlib
        matplotlib.use("Agg", force=True)
        import matplotlib.pyplot as plt
        from mpl_toolkits.mplot3d.axes3d import Axes3D
        self.plt, self.A = plt, Axes3D
        self.old = {k: getattr(Axes3D, k) for k in ("plot_surface", "plot_wireframe", "plot_trisurf")}
        self.surfaces, self.shown = [], []

        def rec(ax, X, Y, Z, *a, **k):
            self.surfaces.append([np.array(q, dtype=float).ravel() for q in np.broadcast_arrays(X, Y, Z)])
        for k in self.old:
            setattr(Axes3D, k, rec)
        self.oshow = plt.show
        plt.show = lambda *a, **k: self.shown.append(1)
        return self

    def __exit__(self, *a):
        for k, f in self.old.items():
            setattr(self.A, k, f)
        self.plt.show = self.oshow
        self.plt.close("all")


def observe(args):
    co, g = args
    v = g["p"]
    p = build_plate(co, v)
    out, history = [], []
    for s in g["steps"]:
        history.append({k: x for k, x in s.items() if x} if s["op"] != "plot" else s)
        if s["op"] == "analyse":
            r = guarded(lambda: p.buckling_analysis(num_eigvalues=s["k"]), 500)
        elif s["op"] == "D":
            r = guarded(p.calc_K_KG_D, 60)
        elif s["op"] == "ABD":
            r = guarded(p.calc_K_KG_ABD, 60)
        elif s["op"] == "neighbour":          # another plate on the same laminate, other supports
            r = guarded(lambda: co.PlateStructure(p.dproperty, p.b, p.a, constraints="CLAMPED", Nyy=-1,
                                                  m=v["m"], n=v["n"]).buckling_analysis(), 60)
        else:
            ev = base_event(v)
            inp = dict(describe_plate(v), session=list(history))
            before = None if p.eigenvector is None else np.array(p.eigenvector)
            gx, gy = (20, 20) if s["plain"] else (s["gx"], s["gy"])
            ev.update(gx=gx, gy=gy, before=0 if before is None else before.shape[1])

            def go():
                with Renderer() as R:
                    if s["plain"]:
                        p.plot_eigenvalue(s["nth"])
                    elif hash_pick(json.dumps(v) + str(len(history)), 2):
                        p.plot_eigenvalue(s["nth"], gx, gy)
                    else:
                        p.plot_eigenvalue(nth=s["nth"], ngridx=gx, ngridy=gy)
                now = np.array(p.eigenvector)
                X, Y, Z = R.surfaces[0] if R.surfaces else ([], [], [])
                analysed = True
                if before is None:
                    ref = np.asarray(build_plate(co, v).buckling_analysis()[0])
                    analysed = bool(np.allclose(ref[:1], np.asarray(p.eigenvalue)[:1], rtol=1e-6))
                return {"surfaces": len(R.surfaces), "shown": len(R.shown) > 0, "X": fxs(X), "Y": fxs(Y), "Z": fxs(Z),
                        "after": now.shape[1], "kept": before is None or bool(np.array_equal(before, now)),
                        "analysed": analysed, "coef": fxs(now[:, s["nth"]])}
            out.append(record(ev, inp, go, 60))
            continue
        if r[0] != "ok":
            break
    return out


def run(chk, deep):
    co = load_repo()
    import matplotlib.pyplot, mpl_toolkits.mplot3d.axes3d   # noqa: before forking
    chk.model(modelcheck("MC_Mode", MODEL % (3 if deep else 2)), "MC_Mode")
    gs = []
    for size, num, long_ in (((5, 250, "FALSE"), (8, 60, "FALSE"), (12, 20, "FALSE"), (14, 24, "TRUE"), (18, 8, "TRUE"), (26, 3, "TRUE")) if deep
                             else ((4, 50, "FALSE"), (7, 16, "FALSE"), (12, 10, "TRUE"), (20, 4, "TRUE"))):
        gs += [g["v"] for g in generate("Gen_Mode", num=1, depth=num, seed=SEED * 100 + size,
                                        consts="CONSTANT MaxSize = %d\nCONSTANT MaxPlies = 6\nCONSTANT Long = %s" % (size, long_)).gen]
    gs.sort(key=lambda g: -g["p"]["m"] * g["p"]["n"])
    pairs = [e for r in pmap(observe, [(co, g) for g in gs]) for e in r]
    chk.samples = [p[1] for p in pairs[:3]]
    chk.conform("Conf_Mode", [p[0] for p in pairs], [p[1] for p in pairs])
