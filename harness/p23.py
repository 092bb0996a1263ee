from lib import *
import numpy as np

MODEL = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT MaxEntries = %d\nINVARIANT ReadsBack NothingElse\n"


def num(d):
    return float(d["k"]) / d["div"] * 10.0 ** d["ten"]


def boxed(vals, box):
    if box == "intarray":
        return np.array([int(x) for x in vals])
    return {"list": list, "tuple": tuple, "array": np.array, "typed": lambda v: [np.float64(x) for x in v]}[box](vals)


def observe(co, v, i):
    kind = v["kind"]
    ev, inp = {"kind": kind, "err": "", "texts": []}, {"kind": kind}
    if kind in ("ortho", "iso"):
        vals = [num(x) for x in v["num"]]
        if v["int"]:
            vals = [int(x) if x >= 1 and j not in (1, 2) else x for j, x in enumerate(vals)]
        inp.update(values=vals, name=v["name"])

        def make():
            o = (co.OrthotropicMaterial if kind == "ortho" else co.IsotropicMaterial)(*vals, name=v["name"] or None)
            return o, lambda: (o.Q_0, o.name), {"num": fxs(vals)}
    else:
        m = co.OrthotropicMaterial(100., 10., .3, 5., .1)
        if kind == "stack":
            ang = [num(x) for x in v["ang"]]
            inp.update(angles=ang, container=v["box"])

            def make():
                o = co.LaminateProperty(boxed(ang, v["box"]), m if v["one"] else [m] * len(ang))
                return o, lambda: (o.A, o.B, o.D), {"ang": fxs(ang)}
        else:
            par = {k: [num(x) for x in v[k]] for k in ("xiD", "xiA", "xiB") if v[k]}
            T = num(v["T"])
            inp.update(par, T=T, container=v["box"])

            def make():
                st = {k: boxed(x, v["box"]) for k, x in par.items()}
                st["T"] = np.float64(T) if v["box"] == "typed" else T
                keys = sorted(st)
                keys = keys[v["order"] % len(keys):] + keys[:v["order"] % len(keys)]
                o = co.LaminateProperty({k: st[k] for k in keys}, m)
                return o, lambda: (o.A if "xiA" in par else None, o.D), {**{k: fxs(par.get(k, [])) for k in ("xiA", "xiB", "xiD")}, "T": [fx(T)]}

    def go():
        o, read, more = make()
        ts = [repr(o), str(o)]
        read()
        ts += ["%s" % o, repr(make()[0]) if kind not in ("ortho", "iso") or v["name"] else repr(o)]
        if kind in ("ortho", "iso"):
            more["name"] = v["name"] or o.name
        return {"texts": [str(t) for t in ts], **more}
    r = guarded(go, 20)
    if r[0] == "ok":
        ev.update(r[1])
        inp["text"] = r[1]["texts"][0]
    else:
        inp["error"] = ev["err"] = r[1] + ": " + r[2]
    return ev, inp


def run(chk, deep):
    co = load_repo()
    chk.model(modelcheck("MC_Printed", MODEL % (3 if deep else 2)), "MC_Printed")
    g = generate("Gen_Printed", num=1, depth=(20000 if deep else 1500)).gen
    pairs = [observe(co, x["v"], i) for i, x in enumerate(g)]
    chk.samples = [p[1] for p in pairs[:6]]
    chk.conform("Conf_Printed", [p[0] for p in pairs], [p[1] for p in pairs])
