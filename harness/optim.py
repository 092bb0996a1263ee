"""Running the optimisers on drawn problems (Gen_Optimum)."""
from plates import *

START = {0: None, 1: [1.0, 0.0, 0.0], 2: [5.0, 0.0, 0.0], 3: [0.5, 0.3, 0.2]}
LIMIT = {0: -1, 1: -1, 2: 250, 3: 2}
MODEL = ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Size = 2\nCONSTANT Grid = %d\nCONSTANT Sides = %s\n"
         "INVARIANT NothingLost AnswersAgree StaysFeasible Ends SearchAgrees CubeLaw\n")


def model(chk, deep):
    chk.model(modelcheck("MC_Optimum", MODEL % ((6, "{250, 430, 700}") if deep else (4, "{250}"))),
              "MC_Optimum: the search excludes only points below the aim and decides")


def draws(what, num, size, seed):
    return [g["v"] for g in generate("Gen_Optimum", num=1, depth=num, seed=SEED * 1000 + seed,
                                     consts="CONSTANT MaxSize = %d\nCONSTANT What = \"%s\"" % (size, what)).gen]


def numbers(p, nudge=0.0):
    """Arguments common to both optimisers; nudge changes the problem imperceptibly."""
    m = p["mat"]
    c = constraints(p["c"], p["style"])
    kw = {} if c is None else {"panel_constraint": c}
    lim = LIMIT[p["opt"]]
    if p["opt"] == 1:
        kw["tol"] = 1e-7
    elif lim >= 0:
        kw["options"] = {"maxiter": lim}
    E, L = units(p)
    N = [x / 1024 * p["f"] for x in p["N"]]
    if p["unit"] != "mm" or p["mag"]:
        N = [x * (E * L * 10.0 ** p["mag"]) for x in N]
    return dict(a=float(p["a"]) * L * (1 + nudge), b=float(p["b"]) * L, E1=float(m["e1"]) * E, E2=float(m["e2"]) * E,
                v12=m["v12"] / 1000, G12=float(m["g12"]) * E, Nxx=N[0], Nyy=N[1], Nxy=N[2], m=p["m"], n=p["n"], **kw)


def thick(p):
    return p["T"] / 1000 * units(p)[1]


def event(kind, p, kw):
    return {"kind": kind, "mat": fxs([kw["E1"], kw["E2"], kw["v12"], kw["G12"]]), "a": fx(kw["a"]), "b": fx(kw["b"]),
            "c": p["c"], "m": p["m"], "n": p["n"], "N": fxs([kw["Nxx"], kw["Nyy"], kw["Nxy"]]),
            "maxiter": LIMIT[p["opt"]], "err": ""}


def outcome(r):
    return {"x": fxs(np.asarray(r.x)), "fun": fx(float(np.ravel(r.fun)[0])), "ok": bool(r.success), "nit": int(r.nit)}


def maximise(p, nudge=0.0, **more):
    from composipy.optimize import maximize_buckling_load
    kw = numbers(p, nudge)
    a, b = kw.pop("a"), kw.pop("b")
    return maximize_buckling_load(a, b, thick(p), penalty=p["region"] == "triangle", **kw, **more)


def minimise(p, nudge=0.0):
    from composipy.optimize import minimize_panel_weight
    kw = numbers(p, nudge)
    a, b = kw.pop("a"), kw.pop("b")
    if START[p["x0"]] is not None:
        kw["x0"] = list(START[p["x0"]])
    return minimize_panel_weight(a, b, **kw)


def describe_problem(kind, p, nudge=0.0):
    d = dict(numbers(p, nudge), function=kind)
    if kind != "min":
        d.update(T=thick(p), region=p["region"])
    if kind != "max":
        d["x0"] = START[p["x0"]] or "default"
    return d


def observe(args):
    kind, p, nudge = args
    ev = event(kind, p, numbers(p, nudge))
    if kind == "max":
        ev.update(T=fx(thick(p)), region=p["region"])
    return record(ev, describe_problem(kind, p, nudge), lambda: outcome((maximise if kind == "max" else minimise)(p, nudge)), 150)


NUDGES = (1e-7, -1e-7, 1e-6, -1e-6, 3e-6)


def settle(chk, observer, items, fragile, extra=()):
    """Judge all items. SLSQP may stall at a kink of the objective (see DESIGN.md); whether it does changes
    with the last digits of the problem. A rejection on the fragile clauses alone counts only if most
    imperceptibly changed copies of the problem are rejected as well."""
    items = list(items)
    pairs = pmap(observer, [i + (0.0,) for i in items] + list(extra))
    t = time.time()
    bad, d, g = validate("Conf_Optimum", [x[0] for x in pairs])
    again = [(k, cl) for k, cl in bad if k < len(items) and set(cl) <= set(fragile)]
    stalled = set()
    if again:
        todo = again[:12]
        p2 = pmap(observer, [items[k] + (z,) for k, _ in todo for z in NUDGES])
        bad2, d2, g2 = validate("Conf_Optimum", [x[0] for x in p2])
        d, g = d + d2, g + g2
        lost = {i for i, _ in bad2}
        for j, (k, _) in enumerate(todo):
            if sum(j * len(NUDGES) + i in lost for i in range(len(NUDGES))) < 3:
                stalled.add(k)
    chk.states += d
    chk.transitions += g
    chk.traces += len(pairs)
    chk.notes.setdefault("conformance", []).append(
        {"spec": "Conf_Optimum", "observations": len(pairs), "rejected": len(bad) - len(stalled),
         "stalled_at_a_kink": [pairs[k][1] for k in sorted(stalled)], "wall_s": round(time.time() - t, 1)})
    for k, cl in bad:
        if k not in stalled:
            chk.bad.append({"spec": "Conf_Optimum", "clauses": cl, "input": pairs[k][1]})
    return pairs
