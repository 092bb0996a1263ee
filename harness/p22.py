"""Calls written in every way, against the call that names every argument."""
import ast, contextlib, io
from optim import *
from p13 import Renderer
from p21 import Canvas

MODEL = ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Few = %d\n"
         "INVARIANT AlwaysLegal MeaningKept FullSaysAll OrderMatters\n")
CHEAP = ("ortho", "iso", "laminate", "strength", "sequence", "card")
MIDDLE = ("analyse", "draw", "plate")
DEAR = ("maximise", "minimise")


def objects(co):
    p1 = co.OrthotropicMaterial(129500, 9370, 0.38, 5240, 0.2)
    p2 = co.OrthotropicMaterial(60800, 58250, 0.07, 4550, 0.21)
    p3 = co.IsotropicMaterial(70000, 0.3, 26923, 0.5)
    return {"@ply1": p1, "@ply2": p2, "@three": [p1, p2, p3],
            "@lam1": co.LaminateProperty([45, 0, -45], p1), "@lam2": co.LaminateProperty([90, 30, 0, 15], p2)}


def value(t, held):
    return held[t] if t.startswith("@") else ast.literal_eval(t)


def flat(x):
    return [fx(v) for v in np.asarray(x, dtype=float).ravel()]


def facts(co, f, a, kw):
    """Make the call; the numbers and the text it led to."""
    from composipy import nastranapi, optimize
    if f == "ortho":
        o = co.OrthotropicMaterial(*a, **kw)
        return [[fx(getattr(o, k))] for k in ("e1", "e2", "v12", "g12", "thickness", "t1", "c1", "t2", "c2", "s")] + [flat(o.Q_0)], ""
    if f == "iso":
        o = co.IsotropicMaterial(*a, **kw)
        return [[fx(getattr(o, k))] for k in ("e", "v", "g", "thickness", "t", "c", "s")] + [flat(o.Q_0)], ""
    if f == "laminate":
        o = co.LaminateProperty(*a, **kw)
        return [flat(o.A), flat(o.B), flat(o.D)], ""
    if f == "strength":
        o = co.LaminateStrength(*a, **kw)
        return [[fx(getattr(o, k))] for k in ("Nxx", "Nyy", "Nxy", "Mxx", "Myy", "Mxy")] + \
            [flat(o.calculate_strain().select_dtypes("number").to_numpy())], ""
    if f == "plate":
        o = co.PlateStructure(*a, **kw)
        K, G = o.calc_K_KG_D()
        return [[fx(getattr(o, k))] for k in ("a", "b", "Nxx", "Nyy", "Nxy", "m", "n")] + \
            [flat(np.diag(K)), flat(K[0]), flat(np.diag(G)), flat(G[0])], ""
    if f in ("analyse", "draw"):
        o = co.PlateStructure(co.LaminateProperty([45, 0, -45], co.OrthotropicMaterial(129500, 9370, 0.38, 5240, 0.2)),
                              400, 300, "PINNED", -1, -0.5, 0, 4, 3)
        if f == "analyse":
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                v, c = o.buckling_analysis(*a, **kw)
            return [flat(v), flat(np.shape(c)), flat(np.abs(c))], "prints" if out.getvalue() else "silent"
        with Renderer() as R:
            o.plot_eigenvalue(*a, **kw)
        return [list(map(fx, q)) for s in R.surfaces for q in s] + [[fx(len(R.surfaces))]], ""
    if f == "sequence":
        return [flat(nastranapi.build_sequence(*a, **kw))], ""
    if f == "card":
        return [], nastranapi.build_pcomp(*a, **kw)
    with Canvas() as cv, contextlib.redirect_stdout(io.StringIO()):
        r = (optimize.maximize_buckling_load if f == "maximise" else optimize.minimize_panel_weight)(*a, **kw)
    return [flat(r.x), flat(r.fun), flat(r.nit), flat(len(cv.fields))] + [flat(q) for q in cv.fields[:1] for q in q] + \
        [flat(np.vstack(cv.lines)) if cv.lines else []], str(bool(r.success))


def observe(args):
    co, g = args
    f, call = g["f"], g["call"]
    names = [k for k, _ in call["kw"]]
    pos, kw = call["pos"], call["kw"]
    full = list(zip(PARAMS[f], g["given"]))

    def once(p, k):
        held = objects(co)
        r = guarded(lambda: facts(co, f, [value(t, held) for t in p], {n: value(t, held) for n, t in k}), 200)
        return {"err": "", "nums": r[1][0], "text": r[1][1]} if r[0] == "ok" else {"err": r[1] + ": " + r[2], "nums": [], "text": ""}
    ev = {"f": f, "call": call, "given": g["given"], "named": full,
          "out": once(pos, kw), "full": once([], full), "again": once(pos, kw)}
    inp = {"callable": f, "positional": pos, "named": kw, "means": dict(full)}
    for k in ("out", "full"):
        if ev[k]["err"]:
            inp["error_" + k] = ev[k]["err"]
    return ev, inp


PARAMS = {}


def run(chk, deep):
    co = load_repo()
    chk.model(modelcheck("MC_Signature", MODEL % (4 if deep else 3)), "MC_Signature: rewriting a call keeps its meaning")
    todo = [(f, num) for fs, num in (((CHEAP, 300), (MIDDLE, 120), (DEAR, 150)) if deep else ((CHEAP, 50), (MIDDLE, 20), (DEAR, 24))) for f in fs]
    classes()

    def some(f, num):
        got = []
        for k in range(1, 99):
            if len(got) >= num:
                return got[:num]
            got += [g["v"] for g in generate("Gen_Signature", num=1, depth=min(90 * num, 20000), seed=SEED * 1000 + k,
                                             consts="CONSTANT Which = {\"%s\"}" % f).gen]
    with ThreadPoolExecutor(NCPU) as ex:
        gs = sum(ex.map(lambda x: some(*x), todo), [])
    for g in gs:                                 # the specification's own names
        PARAMS[g["f"]] = g["names"]
    gs.sort(key=lambda g: g["f"] not in DEAR)
    pairs = pmap(observe, [(co, g) for g in gs])
    chk.samples = [p[1] for p in pairs[:3]] + [p[1] for p in pairs[-3:]]
    chk.conform("Conf_Signature", [p[0] for p in pairs], [p[1] for p in pairs])
