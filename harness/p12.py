"""Sessions drawn by the specification are played in one process each; every value read is compared with
the value of the same definition in a process that has done nothing else."""
import copy, gc, hashlib
from lib import *
import numpy as np
import plates

MODEL = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Steps = %d\nCONSTANT Copies = %s\nINVARIANT HistoryFree\n"
SCALE = {"ortho": (1, 1, 1e-3, 1, 1e-3, 1, 1, 1, 1, 1), "iso": (1, 1e-3, 1, 1e-3, 1, 1, 1)}
ORDER = plates.ORDER


# ------------------------------------------------------------- building things
def mat(co, d):
    cls = co.OrthotropicMaterial if d["kind"] == "ortho" else co.IsotropicMaterial
    return cls(*[float(x * s) if s != 1 else float(x) for x, s in zip(d["num"], SCALE[d["kind"]])])


def angles(form, val):
    a = [x / 100 for x in val]
    return {"list": list, "tuple": tuple, "array": np.array}[form](a)


def lp(form, val):
    f = (lambda v: np.array([x / 1000 for x in v])) if form == "array" else (lambda v: [x / 1000 for x in v])
    d = {"xiD": f(val["xd"]), "T": val["T"] / 1000}
    if val["xa"]:
        d["xiA"] = f(val["xa"])
    return d


def edges(val):
    return {k: e[1] if e[0] == "word" else list(e[1:]) for k, e in zip(ORDER, val)}


def box(b, mats):
    k, v = b["kind"], b["val"]
    if k == "angles":
        return angles(b["form"], v)
    if k == "plies":
        return {"list": list, "tuple": tuple}[b["form"]](mats[i - 1] for i in v)
    if k == "lp":
        return lp(b["form"], v)
    if k == "supports":
        return edges(v)
    return [x / 1000 for x in v]


def change(real, b, mu, mats):
    """The user's own change of a container."""
    k, op = b["kind"], mu[0]
    enc = {"angles": lambda x: x / 100, "plies": lambda x: mats[x - 1], "guess": lambda x: x / 1000}.get(k)
    if op == "set":
        real[mu[1] - 1] = enc(mu[2])
    elif op == "append":
        real.append(enc(mu[1]))
    elif op == "pop":
        real.pop()
    elif op == "reverse":
        real.reverse()
    elif op in ("xd", "xa"):
        real["xi" + op[1].upper()][mu[1] - 1] = mu[2] / 1000
    elif op == "newxd":
        real["xiD"] = [x / 1000 for x in mu[1]]
    elif op == "noxa":
        del real["xiA"]
    elif op == "T":
        real["T"] = mu[1] / 1000
    elif op == "edge":
        real[ORDER[mu[1] - 1]] = edges([mu[2]] * 4)["x0"]
    elif op == "push":
        real[ORDER[mu[1] - 1]].append(mu[2])
    elif op == "pull":
        real[ORDER[mu[1] - 1]].pop()


def find(real, b, mats):
    """Content of a container, in the specification's terms ('?' where it is not one)."""
    def code(x, f):
        n = round(float(x) * f)
        return n if n / f == float(x) else "?"
    try:
        k = b["kind"]
        if k == "angles":
            val = [code(x, 100) for x in real]
        elif k == "plies":
            val = [next((i + 1 for i, m in enumerate(mats) if m is x), "?") for x in real]
        elif k == "guess":
            val = [code(x, 1000) for x in real]
        elif k == "lp":
            if set(real) - {"xiD", "xiA", "T"}:
                return "?"
            val = {"xd": [code(x, 1000) for x in real["xiD"]], "xa": [code(x, 1000) for x in real.get("xiA", [])],
                   "T": code(real["T"], 1000)}
        else:
            if set(real) != set(ORDER):
                return "?"
            val = [["word", real[e]] if isinstance(real[e], str) else ["list"] + list(real[e]) for e in ORDER]
        return val
    except Exception:                            # noqa
        return "?"


# ----------------------------------------------------------------- reading
def column(x):
    return np.asarray(x, dtype=float).ravel().tolist()


def value(text, cols):
    cols = [column(c) for c in cols]
    h = hashlib.sha1(json.dumps([text, cols]).encode()).hexdigest()[:16]
    return {"id": h, "text": text, "cols": cols}


def arr(*xs):
    return value(str([np.shape(x) for x in xs]), xs)


def table(df):
    import pandas as pd
    num = [c for c in df.columns if pd.api.types.is_numeric_dtype(df[c])]
    txt = {c: [str(x) for x in df[c]] for c in df.columns if c not in num}
    return value(json.dumps([list(map(str, df.columns)), len(df), txt]), [df[c] for c in num])


def edge_text(c):
    if isinstance(c, dict):
        return json.dumps({k: (v if isinstance(v, str) else list(v)) for k, v in sorted(c.items())})
    return json.dumps(c)


def quantity(o, d, q):
    t = d["t"]
    if q == "fields":
        if t == "mat":
            names = [n for n in ("e1", "e2", "v12", "g12", "e", "v", "g", "thickness", "t1", "c1", "t2", "c2", "s", "t", "c") if hasattr(o, n)]
            return value(",".join(names), [[float(getattr(o, n)) for n in names]])
        if t == "lam":
            return value("lam %d" % len(o.stacking), [list(o.stacking)] + [[p.thickness, getattr(p, "e1", 0)] for p in
                         (o.plies if isinstance(o.plies, (list, tuple)) else [o.plies])])
        if t == "lp":
            s = o.stacking
            return value(",".join(sorted(s)), [np.atleast_1d(s[k]) for k in sorted(s)])
        if t == "plate":
            return value(edge_text(o.constraints), [[o.a, o.b, o.Nxx, o.Nyy, o.Nxy, o.m, o.n], o.dproperty.D])
        return value("str", [[o.Nxx, o.Nyy, o.Nxy, o.Mxx, o.Myy, o.Mxy]])
    if t == "mat":
        if q == "Invariants":
            return arr(o.Invariants()) if hasattr(o, "Invariants") else value("none", [])
        return arr(getattr(o, q)) if hasattr(o, q) else value("none", [])
    if t in ("lam", "lp"):
        x = getattr(o, q)
        if x is None:
            return value("None", [])
        if q in ("Q_layup", "T_layup"):
            return value("layers %d" % len(x), list(x))
        return arr(x)
    if t == "plate":
        if q == "K_D":
            return arr(*o.calc_K_KG_D())
        if q == "K_ABD":
            return arr(*o.calc_K_KG_ABD())
        kw = {"factors": {}, "factors_verbose": {"silent": False}, "factors_2": {"num_eigvalues": 2}}[q]
        return arr(factors(o, **kw))
    return {"epsilon0": lambda: arr(o.epsilon0()), "strain": lambda: table(o.calculate_strain()),
            "stress": lambda: table(o.calculate_stress()), "margins": lambda: table(o.calculate_maxstressmargin())}[q]()


def factors(o, **kw):
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        v, _ = o.buckling_analysis(**kw)
    v = np.asarray(v)
    # factors beyond 1e4 times the first are rounding noise of vanishing loads
    return np.where((v > 0) & (v < 1e4 * v[0]), v, -1.0) if v[0] > 0 else np.full(v.shape, -1.0)


def call(fn, st, x0, sup, mat_, geo, text):
    from composipy.nastranapi import build_pcomp, build_sequence
    from composipy.optimize import maximize_buckling_load, minimize_panel_weight
    if fn == "sequence":
        return value("text", [build_sequence(text)])
    if fn == "pcomp":
        return value(str(build_pcomp(st, 3, 0.25)), [])
    m = [float(x * s) for x, s in zip(mat_["num"], SCALE["ortho"])][:4]
    N = [x / 300 for x in geo["N"]]
    given = [{"maxiter": 3}, {"ftol": 1e-2}, {"disp": False, "maxiter": 4}][int(geo["a"]) % 3]
    opts = dict(given)
    if fn == "maximize":
        r = maximize_buckling_load(float(geo["a"]), float(geo["b"]), 1.5, *m, *N, m=2, n=2, panel_constraint=sup, options=opts)
    else:
        kw = {} if x0 is None else {"x0": x0}
        r = minimize_panel_weight(float(geo["a"]), float(geo["b"]), *m, *N, m=2, n=2, panel_constraint=sup, options=opts, **kw)
    if opts != given:
        raise AssertionError("the user's options were changed")
    return value("ok", [r["x"], [float(r["fun"])]])


def build(co, d, mats):
    """A definition, built from nothing."""
    t = d["t"]
    if t == "mat":
        return mat(co, mats[d["i"] - 1])
    if t == "lam":
        if d["one"]:
            return co.LaminateProperty(angles(d["form"], d["st"]), mat(co, mats[d["plies"][0] - 1]))
        return co.LaminateProperty(angles(d["form"], d["st"]), [mat(co, mats[i - 1]) for i in d["plies"]])
    if t == "lp":
        return co.LaminateProperty(lp(d["form"], d["lp"]), mat(co, mats[d["mat"] - 1]))
    if t == "plate":
        return plate(co, build(co, d["lam"], mats), d, None if d["sup"][0] == "default" else edges(d["sup"][1:]))
    return co.LaminateStrength(build(co, d["lam"], mats), *[x / 10 for x in d["N"]])


def plate(co, lam, g, sup):
    kw = {} if sup is None else {"constraints": sup}
    N = [x / 100 for x in g["N"]]
    return co.PlateStructure(lam, float(g["a"]), float(g["b"]), Nxx=N[0], Nyy=N[1], Nxy=N[2], m=g["m"], n=g["n"], **kw)


def outcome(f):
    r = guarded(f, 60)
    return r[1] if r[0] == "ok" else {"id": "error " + r[1].split("|")[0], "text": r[2]}


def pristine(args):
    """Value of one definition in a process that does nothing else."""
    co, mats, d, q, c = args
    if q is not None:
        return outcome(lambda: quantity(build(co, d, mats), d, q))
    return outcome(lambda: call(c["fn"], angles(d["form"], d["st"]) if c["fn"] == "pcomp" else None,
                                [x / 1000 for x in d["x0"]] if d["x0"] else None,
                                edges(d["st"]) if c["fn"] in ("maximize", "minimize") else None,
                                mats[c["mat"] - 1], c["geo"], c["text"]))


def play(args):
    """One session, in one process."""
    co, g = args
    real = [mat(co, m) for m in g["mats"]]
    boxes = [box(b, real) for b in g["start"]]
    objs = list(real)
    known = {}
    out = []
    for rec in g["log"]:
        c, d = rec["c"], rec["def"]
        ev = {"err": "", "c": c, "def": d, "boxes": [b["val"] for b in rec["boxes"]]}

        def go():
            op = c["op"]
            if op in ("lam", "lp") and c["own"]:   # equal materials that nothing else holds
                if op == "lam" and c["plies"]:
                    arg = box(dict(rec["boxes"][c["plies"] - 1]), [mat(co, m) for m in g["mats"]])
                else:
                    arg = mat(co, g["mats"][c["mat"] - 1])
                objs.append(co.LaminateProperty(boxes[c["box"] - 1], arg))
            elif op == "lam":
                objs.append(co.LaminateProperty(boxes[c["box"] - 1], boxes[c["plies"] - 1] if c["plies"] else real[c["mat"] - 1]))
            elif op == "lp":
                objs.append(co.LaminateProperty(boxes[c["box"] - 1], real[c["mat"] - 1]))
            elif op == "plate":
                objs.append(plate(co, objs[c["obj"] - 1], c["geo"], boxes[c["box"] - 1] if c["box"] else None))
            elif op == "str":
                objs.append(co.LaminateStrength(objs[c["obj"] - 1], *[x / 10 for x in c["N"]]))
            elif op == "change":
                change(boxes[c["box"] - 1], rec["boxes"][c["box"] - 1], c["mu"], real)
            elif op == "drop":
                objs[c["obj"] - 1] = None
                gc.collect()
            elif op == "read":
                ev["obs"] = outcome(lambda: quantity(objs[c["obj"] - 1], d, c["q"]))
            else:
                b = boxes[c["box"] - 1]
                x0 = boxes[c["guess"] - 1] if c["guess"] else None
                ev["obs"] = outcome(lambda: call(c["fn"], b if c["fn"] == "pcomp" else None, x0, b, g["mats"][c["mat"] - 1], c["geo"], c["text"]))
        r = guarded(go, 120)
        if r[0] != "ok":
            ev["err"] = r[1] + ": " + r[2]
        if g["every"] or c["op"] in ("change",) or rec is g["log"][-1]:
            ev["found"] = [find(x, b, real) for x, b in zip(boxes, rec["boxes"])]
        else:
            ev["found"] = ev["boxes"]
        out.append(ev)
        if ev["err"]:
            break
    return out


def run(chk, deep):
    co = load_repo()
    import composipy.nastranapi, composipy.optimize          # noqa
    chk.model(modelcheck("MC_Session", MODEL % (8 if deep else 6, "TRUE")), "MC_Session: all histories, arguments copied")
    r = tlc("MC_Session", MODEL % (6, "FALSE"))
    if "HistoryFree is violated" not in r.out:
        raise MachineryError("the session model does not notice borrowed arguments\n" + r.out[-800:])
    short = [x["v"] for x in modelcheck("Gen_Histories", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Reads = %d\n" % (3 if deep else 2)).gen]
    num, depth = (600, 60) if deep else (70, 30)
    long_ = [x["v"] for x in generate("Gen_Session", num=num, depth=depth + 2, consts="CONSTANT Steps = %d" % depth).gen]
    gs = [dict(g, every=False) for g in short] + [dict(g, every=True) for g in long_]
    logs = pmap(play, [(co, g) for g in gs], fresh=True)
    # the pristine value of every definition that was read
    want = {}
    for g, log in zip(gs, logs):
        for ev in log:
            if "obs" in ev:
                ev["key"] = json.dumps([g["mats"], ev["def"], ev["c"].get("q"), ev["c"].get("fn")])
                want[ev["key"]] = (co, g["mats"], ev["def"], ev["c"].get("q"), ev["c"])
    keys = sorted(want)
    ref = dict(zip(keys, pmap(pristine, [want[k] for k in keys], fresh=True)))
    events, metas = [], []
    for g, log in zip(gs, logs):
        for i, ev in enumerate(log):
            e = {"err": ev["err"], "boxes": ev["boxes"], "found": ev["found"]}
            if "obs" in ev:
                o, r = ev["obs"], ref[ev["key"]]
                if o["id"] == r["id"]:
                    o, r = {"id": o["id"]}, {"id": r["id"]}
                else:
                    o, r = [dict(x, cols=fxs(x["cols"])) if "cols" in x else x for x in (o, r)]
                e.update(obs=o, ref=r, failed=o["id"].startswith("error"), loose=ev["c"]["op"] == "call" or "factors" in ev["c"].get("q", ""))
            if ev["found"] is ev["boxes"]:           # not looked at after this command
                e["boxes"] = e["found"] = []
            events.append(e)
            metas.append(dict(materials=g["mats"], containers=g["start"], commands=[x["c"] for x in g["log"][:i + 1]]))
    chk.samples = [{"commands": [x["c"] for x in g["log"]]} for g in long_[:2] + short[:1]]
    chk.notes["sessions"] = {"short": len(short), "long": len(long_), "definitions_in_pristine_processes": len(keys),
                             "errors": sum(1 for e in events if "obs" in e and e["obs"]["id"].startswith("error"))}
    chk.conform("Conf_Session", events, metas)
