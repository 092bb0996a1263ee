"""Turning drawn laminates (Gen_Layup) into real objects and their exact descriptions."""
from lib import *
import numpy as np


# consistent systems of units: (modulus in MPa, length in mm) of the draws -> the user's numbers
UNITS = {"mm": (1.0, 1.0), "m": (1e6, 1e-3), "in": (145.0377377, 1 / 25.4), "GPa": (1e-3, 1.0), "um": (1e-6, 1e3), "TPa": (1e-6, 1.0)}


def units(v):
    return UNITS[v.get("unit", "mm")]


def build_mat(co, d, unit=(1.0, 1.0)):
    """d: {m: material draw, t: um, a: allowables}; returns (real ply, numbers, description)."""
    E, L = unit
    m, t = d["m"], d["t"] / 1000 * L
    a = {k: x * E for k, x in d["a"].items()} if d.get("a") else None
    e1, e2, v, g = float(m["e1"]) * E, float(m["e2"]) * E, m["v12"] / 1000, float(m["g12"]) * E
    if m["kind"] == "o":
        al = dict(t1=a["t1"], c1=a["c1"], t2=a["t2"], c2=a["c2"], s=a["s"]) if a else {}
        if d.get("nm"):
            al["name"] = d["nm"]
        return co.OrthotropicMaterial(e1, e2, v, g, t, **al), (e1, e2, v, g, t), ["o", e1, e2, v, g, t]
    al = (a["t1"], a["c1"], a["s"]) if a else (1, 1, 1)
    return co.IsotropicMaterial(e1, v, g, t, *al, **({"name": d["nm"]} if d.get("nm") else {})), (e1, e1, v, g, t), ["i", e1, v, g, t]


def angles_of(v):
    th = [p["th"] / 100 + p.get("f", 0) / 1e7 for p in v["lam"]]
    if v["container"] == "intarray":
        th = [float(round(x)) for x in th]
    return th


def plain(v):
    """Numbers of a drawn laminate: one tuple (e1, e2, v12, g12, t, angle) per ply, and a description."""
    ms = v["mats"]
    th = angles_of(v)
    ks = [p["k"] - 1 for p in v["lam"]]
    if v["single"]:
        ks = [0] * len(ks)
    E, L = units(v)
    out = []
    for k, a in zip(ks, th):
        m = ms[k]["m"]
        e1 = float(m["e1"]) * E
        out.append((e1, float(m["e2"]) * E if m["kind"] == "o" else e1, m["v12"] / 1000, float(m["g12"]) * E, ms[k]["t"] / 1000 * L, a))
    return out, ks, th


def build_laminate(co, v):
    nums, ks, th = plain(v)
    ms = [build_mat(co, d, units(v))[0] for d in v["mats"]]
    c = v["container"]
    st = {"list": list, "tuple": tuple, "array": np.array, "intarray": lambda x: np.array([int(y) for y in x])}[c](th)
    if v["single"]:
        return co.LaminateProperty(st, ms[0])
    pl = [ms[k] for k in ks]
    return co.LaminateProperty(st, tuple(pl) if c == "tuple" else pl)


def describe(v):
    nums, ks, th = plain(v)
    return {"units": v.get("unit", "mm"), "container": v["container"], "single": v["single"], "angles": th, "ply_of": ks,
            "materials": [[d["m"]["kind"], d["m"]["e1"], d["m"]["e2"], d["m"]["v12"] / 1000, d["m"]["g12"], d["t"] / 1000]
                          for d in v["mats"]]}


def feasible_lp(x):
    """Drawn integers -> a feasible (xi1..xi4): cos/sin averages of one or two angles, damped."""
    x1, x2, x3, x4 = [k / 1000 for k in x]
    r = math.hypot(x1, x2)
    if r > 1:
        x1, x2 = x1 / r, x2 / r
    lo, hi = 2 * x1 * x1 - 1, 1 - 2 * x2 * x2
    if lo > hi:
        lo, hi = hi, lo
    x3 = lo + (hi - lo) * x3
    return [x1, x2, x3, x4 * max(0.0, 1 - abs(x3))]
