"""Turning drawn plates (DrawPlate) into real plates."""
from laminates import *

ORDER = ("x0", "xa", "y0", "yb")


def spell(w, style):
    return {"lower": w.lower(), "upper": w.upper(), "title": w.title()}[style]


def edge(e, style):
    return spell(e[1], style) if e[0] == "word" else list(e[1:])


def constraints(c, style):
    """None for the default."""
    if c[0] == "default":
        return None
    if c[0] == "all":
        return c[1].upper()
    return {k: edge(e, style) for k, e in zip(ORDER, c[1:])}


def loads_of(v):
    """Loads and sides in the units of the plate's laminate."""
    E, L = units(v["lam"])
    return [x / 10 * E * L * 10.0 ** v.get("mag", 0) for x in v["N"]]


def sides(v):
    L = units(v["lam"])[1]
    return float(v["a"]) * L, float(v["b"]) * L


def build_plate(co, v, lam=None, N=None):
    lam = build_laminate(co, v["lam"]) if lam is None else lam
    N = loads_of(v) if N is None else N
    kw = dict(Nxx=N[0], Nyy=N[1], Nxy=N[2], m=v["m"], n=v["n"])
    c = constraints(v["c"], v["style"])
    if c is not None:
        kw["constraints"] = c
    return co.PlateStructure(lam, *sides(v), **kw)


def describe_plate(v):
    a, b = sides(v)
    return {"a": a, "b": b, "m": v["m"], "n": v["n"], "N": loads_of(v),
            "constraints": constraints(v["c"], v["style"]), "laminate": describe(v["lam"]) if "mats" in v["lam"] else v["lam"]}


def thickness(lam):
    return sum(p[4] for p in plain(lam)[0])


def base_event(v):
    a, b = sides(v)
    return {"c": v["c"], "m": v["m"], "n": v["n"], "a": fx(a), "b": fx(b), "N": fxs(loads_of(v)), "h": fx(thickness(v["lam"])), "err": ""}


def record(ev, inp, go, seconds=120):
    r = guarded(go, seconds)
    if r[0] == "ok":
        ev.update(r[1])
    else:
        inp["error"] = ev["err"] = r[1] + ": " + r[2]
    return ev, inp
