import decimal
from lib import *
import numpy as np

MODEL = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT ExactlyValid Emitted\n"


def value(v):
    """Drawn argument -> (Python value, exact number)."""
    f, k, s = v["f"], v["k"], v["s"]
    q = Fraction(k) / Fraction(10) ** s
    x = float(q)
    bad = {"none": None, "text": "twelve", "empty": "", "list": [1.0, 2.0], "dict": {}, "complex": 1 + 2j, "nan": float("nan"),
           "inf": float("inf"), "ninf": float("-inf"), "nanstr": "nan", "infstr": "inf", "object": object()}
    if f in bad:
        return bad[f], 0.0
    good = {"int": lambda: int(x), "float": lambda: x, "str": lambda: repr(x), "padded": lambda: "  %r " % x,
            "npfloat": lambda: np.float64(x), "npint": lambda: np.int64(int(x)), "fraction": lambda: Fraction(x),
            "decimal": lambda: decimal.Decimal(x), "bool": lambda: bool(x), "negzero": lambda: -0.0}
    p = good[f]()
    return p, float(p)


def attempt(ev, inp, go):
    r = guarded(go)
    ev.update(err="", errs=[])
    if r[0] == "ok":
        ev.update(r[1])
    else:
        inp["error"] = ev["err"] = r[1] + ": " + r[2]
        ev["errs"] = r[1].split("|")
    return ev, inp


def call(co, v, i):
    vals = [value(a["v"]) for a in v["args"]]
    ev = {"kind": "call", "cls": v["cls"], "args": [{"f": a["v"]["f"], "x": fx(x[1]), "given": a["given"]}
                                                    for a, x in zip(v["args"], vals)], "got": [], "named": True}
    given = [(a["n"], x[0]) for a, x in zip(v["args"], vals) if a["given"]]
    inp = {"class": v["cls"], "style": v["style"], "arguments": [[n, repr(x)] for n, x in given]}
    cls = {"ortho": co.OrthotropicMaterial, "iso": co.IsotropicMaterial, "plate": co.PlateStructure}[v["cls"]]
    pos = v["style"] == "positional" and all(a["given"] for a in v["args"])
    name = "lamina %d" % i

    def go():
        if v["cls"] == "plate":
            lam = co.LaminateProperty([0, 90], co.OrthotropicMaterial(100., 10., .3, 5., .1))
            if pos:
                x = [g[1] for g in given]
                o = cls(lam, x[0], x[1], "PINNED", *x[2:])
            else:
                o = cls(dproperty=lam, **dict(given))
            ok = o.dproperty is lam
        else:
            if pos:
                o = cls(*[g[1] for g in given], name)
            else:
                o = cls(**dict(given), **({"name": name} if i % 2 else {}))
            ok = o.name == name if pos or i % 2 else isinstance(o.name, str) and o.name == o.name
        return {"got": [fx(getattr(o, a["n"])) for a in v["args"]], "named": ok}
    return attempt(ev, inp, go)


def names(co, v):
    """Materials made one after the other; the discarded ones make room for the next."""
    ev, inp = {"kind": "names", "made": v}, {"kind": "names", "made": v}

    def go():
        kept, got = [], []
        for d in v:
            kw = {} if d["name"] == "(none)" else {"name": None if d["name"] == "(None)" else d["name"]}
            o = co.OrthotropicMaterial(100., 10., .3, 5., .1, **kw) if d["cls"] == "ortho" else co.IsotropicMaterial(70., .3, 27., .1, **kw)
            got.append([o.name if isinstance(o.name, str) else "(not a text)" for _ in range(d["reads"])])
            if d["keep"]:
                kept.append((o, d, got[-1]))
            del o
        for o, d, g in kept:                       # and once more at the end
            g.append(o.name if isinstance(o.name, str) else "(not a text)")
        return {"got": got}
    return attempt(ev, inp, go)


def others(co, kind, v):
    ev, inp = dict(v, kind=kind), dict(v, kind=kind)
    ply = co.OrthotropicMaterial(100., 10., .3, 5., .1)

    def go():
        if kind == "lam":
            box = {"list": list, "tuple": tuple, "array": np.array}[v["box"]]
            co.LaminateProperty(box([0.] * v["angles"]), ply if v["plies"] < 0 else [ply] * v["plies"])
        elif kind == "lp":
            full = {"xiA": [0.] * 4, "xiB": [0.] * 4, "xiD": [0., 0., .5, 0.], "T": 1.}
            co.LaminateProperty({k: full[k] for k in full if v[k]}, ply)
        else:
            lam = co.LaminateProperty([0, 90], ply)
            what = {"none": lambda: None, "number": lambda: 3.0, "text": lambda: "laminate", "material": lambda: ply,
                    "list": lambda: [lam], "dict": lambda: {"xiD": [0.] * 4, "T": 1.}, "plate": lambda: co.PlateStructure(lam, 1., 1.),
                    "laminate": lambda: lam, "class": lambda: co.LaminateProperty,
                    "lp": lambda: co.LaminateProperty({"xiD": [0., 0., .5, 0.], "T": 1.}, ply)}[v["what"]]()
            co.PlateStructure(what, 1., 1.)
        return {}
    return attempt(ev, inp, go)


def run(chk, deep):
    co = load_repo()
    m = modelcheck("MC_Screening", MODEL)
    chk.model(m, "MC_Screening")
    gen = m.gen + generate("Gen_Screening", num=1, depth=(20000 if deep else 1500)).gen
    pairs = [call(co, g["v"], i) if g["kind"] == "call" else names(co, g["v"]) if g["kind"] == "names" else others(co, g["kind"], g["v"]) for i, g in enumerate(gen)]
    chk.samples = [p[1] for p in pairs[:2] + pairs[-4:]]
    chk.conform("Conf_Screening", [p[0] for p in pairs], [p[1] for p in pairs])
