"""Load ratios: every problem twice, with all loads multiplied; and the warnings around the values where they begin."""
from optim import *


def part(f):
    r = guarded(lambda: outcome(f()), 150)
    return dict(r[1], err="") if r[0] == "ok" else {"err": r[1]}


def twice(args):
    g, nudge = args
    p, q = g["p"], dict(g["p"], f=g["p"]["f"] * g["g"])
    ev = {"kind": "twice", "g": g["g"], "max1": part(lambda: maximise(p, nudge)), "max2": part(lambda: maximise(q, nudge)),
          "min1": part(lambda: minimise(p, nudge)), "min2": part(lambda: minimise(q, nudge))}
    return ev, dict(describe_problem("both", p, nudge), loads_multiplied_by=g["g"])


def moved(x, tick):
    if abs(tick) == 1:
        return float(np.nextafter(x, tick * np.inf)) if x else tick * 1e-20
    if abs(tick) == 2 or x:
        return x + (tick > 0) * 1e-9 - (tick < 0) * 1e-9 if tick else x
    return x + (1e-40 if tick > 0 else -1e-40) if tick else x


def warn(args):
    g = args[0]
    from composipy.optimize import maximize_buckling_load, minimize_panel_weight
    N = [x["v"] // 1000 if g["whole"] else moved(x["v"] / 1000, x["tick"]) for x in g["N"]]
    kw = dict(Nxx=N[0], Nyy=N[1], Nxy=N[2], m=2, n=2, options={"maxiter": 1})
    texts = []
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        try:
            if g["fn"] == "max":
                maximize_buckling_load(400.0, 300.0, 2.0, 60e3, 60e3, 0.1, 5e3, **kw)
            else:
                minimize_panel_weight(400.0, 300.0, 60e3, 60e3, 0.1, 5e3, **kw)
        except Exception:               # loads without any magnitude end so; only the warnings are judged
            pass
        texts = [str(w.message).lower() for w in got if issubclass(w.category, UserWarning)]
    ev = {"kind": "warn", "N": fxs(N), "unsuitable": any("negative" in t or "compress" in t for t in texts),
          "large": any("normali" in t for t in texts)}
    return ev, {"function": g["fn"], "N": N, "warnings": texts}


def any_of(args):
    return warn(args) if "fn" in args[0] else twice(args)


def run(chk, deep):
    load_repo()
    gs = draws("twice", 120 if deep else 16, 3, 200) + (draws("twice", 40, 4, 201) if deep else [])
    ws = draws("warn", 3000 if deep else 400, 3, 202)
    pairs = settle(chk, any_of, [(g,) for g in gs], {"maximum_unchanged", "thickness_scales"}, [(w,) for w in ws])
    chk.samples = [i for _, i in pairs[:2]] + [i for _, i in pairs[-2:]]
