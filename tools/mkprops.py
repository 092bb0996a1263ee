#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

MAT, PRO, STR, PLT = ("composipy/core/%s.py" % f for f in ("material", "property", "strength", "structure"))
VAL = "composipy/utils/validators.py"
PCO = "composipy/nastranapi/pcomp_generator.py"
BK, FN = ("composipy/pre_integrated_component/%s.py" % f for f in ("build_k", "functions"))
IIF, SS = ("composipy/pre_integrated_component/%s.py" % f for f in ("_ii_F", "_S"))
OMX, OMN, OUT = ("composipy/optimize/%s.py" % f for f in ("_maximize_buckling", "_minimize_panel_weight", "utils"))

prop("C01", "Ply stiffness is the plane-stress stiffness of the engineering constants",
 "For every valid orthotropic or isotropic ply material, the reported reduced stiffness matrix is the inverse of the plane-stress compliance built from its engineering constants (1/E1, 1/E2, -v12/E1, 1/G12), and the reported minor Poisson ratio satisfies v21/E2 = v12/E1. The five material invariants reported for an orthotropic material reproduce that stiffness rotated to every angle. An isotropic material and the orthotropic material with the same constants in both directions have the same stiffness.",
 ["inputs"], "all admissible engineering constants (any moduli ratio, E2 > E1, negative, zero and extreme Poisson ratios, any units), both material classes",
 "One test checks one orthotropic material against four printed numbers; invariants, isotropic materials, v21 and every other moduli ratio are never evaluated.",
 [MAT], [("reduced stiffness and invariants", MAT + ": OrthotropicMaterial.Q_0, Invariants; IsotropicMaterial.Q_0"), ("reciprocal relation", MAT + ": v21")],
 observe=["Q_0", "Invariants()", "v21", "attribute getters"])

prop("C02", "Constructors accept exactly the valid values and keep them",
 "Materials and plates accept an argument exactly when it converts to a finite real number (a whole number for the series sizes) inside its documented bounds (moduli, thickness, allowables and plate dimensions not negative, Poisson ratios within [-0.5, 0.5], series sizes at least 1, loads unbounded), and otherwise refuse construction with a ValueError. An accepted object reports back the numbers it was given, each under its own name, with omitted optional arguments at their defaults; a material reports the name it was given, and without one a lasting name that no other unnamed material of its class has. A laminate refuses a list of plies whose length differs from its stacking, or a lamination-parameter definition without bending parameters or without total thickness, and a plate refuses anything that is not a laminate property.",
 ["inputs", "configurations"], "every constructor parameter crossed with every class of value: in range, on each bound, just outside it, numeric text, booleans, NumPy scalars, NaN, infinities, None, non-numbers",
 "No test passes an invalid value to any constructor, and none reads a getter back; the bound of each parameter is a separate case.",
 [VAL, MAT, PRO, PLT], [("number screening", VAL + ": _float_number, _int_number, _is_instance"), ("constructors", MAT + ", " + PLT + ": __init__"), ("length and key checks", PRO + ": LaminateProperty.__init__")],
 observe=["exception type at construction", "attribute getters", "name"])

prop("C03", "Laminate A, B, D are the through-thickness integrals of rotated plies",
 "For every stacking of plies, with any angles, thicknesses and materials per ply, the extensional, coupling and bending matrices equal the integrals through the thickness of each ply's stiffness rotated by its angle, times 1, z and z squared, with z measured from the mid-plane and the first ply at the bottom. Interface positions are contiguous, start at minus half and end at plus half the total thickness, and per-ply rotated stiffnesses and transformation matrices are those of the ply's own angle and material. The 6x6 matrix is assembled from exactly these blocks.",
 ["inputs", "configurations"], "stackings of any length, per-ply angles (any real degrees), unequal ply thicknesses, hybrid materials including isotropic plies, symmetric and unsymmetric, one shared ply or a list of plies, list, tuple or array stackings",
 "Tests cover one symmetric three-ply laminate with angles 45 and 0 (B identically zero), so coupling, hybrid plies, unsymmetric lay-ups and negative angles are never settled.",
 [PRO], [("ply rotation", PRO + ": Q_layup, T_layup"), ("thickness integration", PRO + ": z_position, A, B, D, ABD"), ("single ply broadcast", PRO + ": __init__")],
 state=[("_A,_B,_D,_Q_layup,_T_layup", "values cached on first read", PRO)],
 observe=["A", "B", "D", "ABD", "z_position", "Q_layup", "T_layup"])

prop("C04", "Lamination parameters and stiffness determine each other",
 "For every stacking, the reported extensional and bending lamination parameters are the thickness-weighted averages of cos2t, sin2t, cos4t, sin4t of the ply angles (weight 1 and 12z^2/h^3), hence lie in the feasible region. A laminate defined by lamination parameters and a total thickness reports those same parameters, zero coupling, and the extensional and bending matrices obtained from the ply material's invariants. Consequently a stacking of one material and the laminate defined from that stacking's own parameters and thickness have the same extensional and bending matrices.",
 ["inputs", "configurations"], "all stackings (unequal ply thicknesses included), all four parameters of each set non-zero, all thicknesses, definitions with and without the extensional set",
 "Tests read the parameters of one fourteen-ply stacking (fourth parameters zero) and compare one buckling number of one parameter-defined plate within 10 percent.",
 [PRO, MAT], [("parameters of a stacking", PRO + ": xiA, xiD"), ("stiffness from parameters", PRO + ": A, B, D (dict branch)"), ("invariants", MAT + ": Invariants")],
 observe=["xiA", "xiD", "A", "B", "D", "ABD"])

prop("C05", "Ply strains and stresses are compatible and balance the applied loads",
 "For every laminate and every combination of membrane loads and moments, mid-plane strains and curvatures multiplied by the laminate stiffness give back the applied loads. The strain and stress tables have two rows per ply, bottom face then top face, from the bottom ply up, each labelled with its ply number, position, height and angle; strain is linear in that height and stress is the ply's own rotated stiffness times strain. Integrated through the thickness, the tabulated stresses and their first moments equal the applied loads and moments.",
 ["inputs", "configurations"], "all laminates (unsymmetric, hybrid, unequal thickness), all six load components in any combination and sign",
 "Tests check two load cases (only Nxx, only Mxx) on one symmetric four-ply laminate with one material and equal thickness, at five table cells, to 3 digits.",
 [STR, PRO], [("mid-plane response", STR + ": epsilon0"), ("ply faces", STR + ": _epsilonk, _stressk"), ("tables", STR + ": calculate_strain, calculate_stress")],
 observe=["epsilon0()", "calculate_strain()", "calculate_stress()"])

prop("C06", "Material-axis strains and stresses are the rotated plate-axis ones",
 "In every row of the strain and stress tables, the material-direction components are the plate-direction components of the same row turned by that ply's angle, with engineering shear strain and with the sign convention under which the ply's own unrotated stiffness maps material strains to material stresses. The strain energy density computed in either axis system is the same.",
 ["inputs", "configurations"], "all ply angles, all laminates and load combinations, both faces of every ply",
 "Tests look at material-direction values of 45-degree plies only, where several sign, angle and factor-two errors cancel or are invisible.",
 [STR], [("strain transformation", STR + ": _epsilonk_123"), ("stress transformation", STR + ": _stressk_123")],
 observe=["calculate_strain()", "calculate_stress()"])

prop("C07", "Maximum-stress margins judge the stress of the row they label",
 "Each row of the margin table refers to the same ply, face and angle as the same row of the stress table, and holds, for each of the five maximum-stress modes, the allowable of that ply divided by the acting stress magnitude of that mode, minus one, infinite when the stress does not act in that mode. A margin is therefore negative exactly when the stress exceeds the allowable. The row's critical mode is one with the smallest margin of the row.",
 ["inputs", "configurations"], "all laminates of orthotropic plies with positive allowables (different per ply), all load combinations, both signs of stress, zero stress",
 "No test calls the margin analysis at all.",
 [STR], [("allowables per row", STR + ": _allowablek_123, _calculate_maxstressallowable"), ("margins", STR + ": calculate_maxstressmargin")],
 observe=["calculate_maxstressmargin()", "calculate_stress()"])

prop("C08", "Edge supports remove exactly the motions they name, edge by edge",
 "For every plate, the admissible displacement functions are the complete polynomial family minus, for each edge and each displacement component independently, the function carrying that component's edge value when the edge restrains its translation and the one carrying its edge slope when the edge restrains its rotation, truncated to the requested sizes. Keyword supports (free, pinned or simply supported, clamped or fixed, in any letter case), the whole-plate shorthands, restraint lists and any mixture of keyword and list edges denote the restraint sets documented for them, and the default is pinned all round. Opposite edges and the two directions are never confused.",
 ["configurations", "inputs"], "all combinations of restraint sets over the four edges (64 per edge), all spellings, all admissible series sizes, square and rectangular sizes",
 "Tests use only the two whole-plate shorthands, for which u, v and w, both directions and all four edges are restrained identically, so any mix-up between them is invisible.",
 [PLT], [("support resolution and function removal", PLT + ": _compute_constraints")],
 state=[("su_idx, sv_idx, sw_idx", "function index pairs kept for u, v, w", PLT)],
 observe=["stiffness matrices", "su_idx", "sv_idx", "sw_idx"])

prop("C09", "Bending and geometric stiffness are the exact energy matrices",
 "For every plate size, aspect ratio, bending matrix (with D16 and D26), support condition and pair of series sizes within the supported range, the bending stiffness matrix is the Hessian of the bending energy, and the geometric matrix that of the in-plane load work, over the admissible polynomial functions, hence both are symmetric, the first positive semi-definite and the second linear in the loads. Series sizes beyond the supported range raise an error instead of returning a matrix.",
 ["inputs", "configurations"], "every reachable pair of function indices (0 to 29) in both directions, all D entries, all load combinations, a != b, m != n",
 "Tests compare two lowest buckling factors at 10 percent tolerance on a square plate with m = n = 10 and Nxy = 0; thousands of tabulated integrals and all D16, D26, Nxy terms stay unexamined.",
 [BK, FN, IIF, PLT], [("entry formulas", BK + ": calc_k33_ijkl, calc_kG33_ijkl"), ("pre-integrated tables", IIF), ("table lookups", FN), ("assembly", PLT + ": calc_K_KG_D")],
 observe=["calc_K_KG_D()"])

prop("C10", "Coupled stiffness is the symmetric Hessian of the full laminate energy",
 "For every laminate, including unsymmetric ones, and every plate, the coupled stiffness matrix over (u, v, w) is the Hessian of the laminate strain energy with membrane, coupling and bending terms, so it is symmetric and positive semi-definite. Its bending block and the bending block of its geometric matrix are the ones of the bending-only analysis, and it decouples when the laminate has no coupling.",
 ["inputs", "configurations"], "all nine blocks, all 18 A, B, D entries, a != b, m != n, all support conditions",
 "No test calls the coupled analysis.",
 [BK, PLT, FN, IIF], [("entry formulas", BK + ": calc_K11_ijkl ... calc_k33_ijkl"), ("assembly", PLT + ": calc_K_KG_ABD")],
 observe=["calc_K_KG_ABD()", "calc_K_KG_D()"])

prop("C11", "Buckling analysis returns the lowest load factors with their modes",
 "For every plate without rigid-body freedom whose loads can buckle it, the returned factors are the smallest positive load multipliers for which the plate is neutrally stable, in ascending order and without omissions, the first one being critical. Each returned shape satisfies the neutral-stability equations for its factor. This holds whatever the magnitude of the applied loads, also when the plate is loaded far beyond buckling, and as many pairs are returned as requested (up to the number of functions minus two).",
 ["inputs", "configurations"], "all load magnitudes and combinations (compression, tension-compression, shear), factors above and below 1, clustered factors, all supports, sizes and requested counts",
 "Tests compare only the first factor at 10 percent for factors between 2.8 and 120; loads above the critical load, higher modes, shapes and completeness are not looked at.",
 [PLT], [("eigenvalue selection and conversion", PLT + ": buckling_analysis")],
 state=[("eigenvalue, eigenvector", "last result kept on the plate", PLT)],
 observe=["buckling_analysis()", "eigenvalue", "eigenvector"])

prop("C12", "Results depend only on what an object was built from, not on history",
 "Every quantity of a material, laminate, strength or plate object is a function of the arguments it was constructed with: reading or computing quantities in any order, any number of times, interleaved with the creation and use of other objects that share plies, laminates or argument containers, gives the same values. No call changes its arguments, and changing a list, array or dictionary after it was handed to a constructor does not change the object. Repeating a buckling analysis, verbose or not, reproduces its factors.",
 ["histories"], "all interleavings of construction, reads, analyses and later changes of the caller's containers, over several objects that differ in a single attribute and share components",
 "Each test builds one object, calls one quantity once and discards everything; cached values, shared components, and repeated or reordered calls are never combined.",
 [MAT, PRO, STR, PLT], [("lazy values", MAT + ": Q_0; " + PRO + ": Q_layup, T_layup, A, B, D"), ("stored results", PLT + ": buckling_analysis, plot_eigenvalue"), ("argument capture", PRO + ", " + PLT + ": __init__")],
 state=[("cached matrices", "filled on first read", PRO), ("eigenvalue, eigenvector, s*_idx", "filled by analysis", PLT)],
 observe=["all public quantities after every step of a history"])

prop("C13", "The plotted mode is the displacement field of the chosen mode",
 "For every plate, mode number and pair of grid sizes, the plotted surface is the out-of-plane displacement obtained by summing the admissible functions with the selected mode's coefficients, at the grid points it is drawn over, which span the whole plate with x along a and y along b. The restrained edges show zero deflection. Plotting before any analysis performs the analysis first.",
 ["inputs", "configurations", "histories"], "all supports, square and rectangular plates and series sizes, all mode numbers, all grid sizes including different numbers of points in the two directions, plotting before and after analysis",
 "No test plots, and the shape-function table of 2500 expressions is never evaluated.",
 [PLT, FN, SS], [("surface evaluation", PLT + ": plot_eigenvalue"), ("shape functions", FN + ": sxieta; " + SS)],
 observe=["arguments handed to the surface plot"])

prop("C14", "Stacking text expands to the plies it denotes, in order",
 "For every well-formed stacking text (angles separated by slashes, each with an optional repeat count with or without braces, an optional plus-minus prefix that alternates signs over the repeat count starting with the written angle, parenthesised groups repeated as a whole, optional brackets and an optional final symmetric mark in either case), the expansion is the list of ply angles it denotes, from first to last, followed by its mirror image when symmetric. Groups and single angles may appear in any order and number, a missing count means once, and blanks around elements are ignored. A text with an element that is not an angle with at most one whole repeat count (an empty element, letters, a fractional or second count) is refused with ValueError, never expanded in part.",
 ["inputs"], "all derivations of the notation's grammar: any number and order of units and groups, all count spellings, signed and fractional angles, symmetric or not",
 "No test refers to this module.",
 [PCO], [("unit expansion", PCO + ": _build_stack_unit, _build_pm_unit"), ("scanner", PCO + ": build_sequence")],
 state=[("is_in_block, is_multiplier, current_block, block", "scanner state", PCO + ": build_sequence")],
 observe=["build_sequence()"])

prop("C15", "A PCOMP card reads back as exactly the plies it was built from",
 "For every stacking sequence, the generated card, read by the free-field rules (comma-separated fields, eight data fields per line, continuation in the tenth), gives back the property id, the offset, and for every ply in order its material id, thickness, angle and stress-output request, and nothing else. Scalar arguments apply to all plies, per-ply lists to their own ply, the default output request is on for the first and last ply only, and argument lists of the wrong length or unknown output requests are refused with a ValueError.",
 ["inputs", "configurations"], "all sequence lengths (odd and even), scalar or list for each argument, all output-request options, with or without offset, any ids, thicknesses and angles",
 "No test refers to this module.",
 [PCO], [("card writer", PCO + ": build_pcomp"), ("broadcasting", PCO + ": _convert_to_list, _convert_sout")],
 observe=["build_pcomp()"])

prop("C16", "Buckling-load maximisation ends at a feasible global optimum",
 "Whenever buckling-load maximisation reports success, the lamination parameters it returns lie in the selected feasible region (the triangle, or the parabola when the penalty is off, up to the small slack it allows), and the reported objective is minus the critical load factor of the described plate at those parameters under the loads scaled to unit largest magnitude. No point of the feasible region gives a noticeably (2 percent) higher factor. It does succeed on well-conditioned panels, in any consistent units and however large or small the loads, and obeys the caller's iteration limit.",
 ["inputs", "configurations"], "all panel shapes, materials, supports, load ratios, both feasible regions, m != n; every competing point of the feasible region",
 "One optimisation on one panel with one load component is compared with one printed optimum at 10 percent; feasibility and optimality elsewhere, shear, other supports, and the parabola are not tested.",
 [OMX, OUT], [("objective", OUT + ": Ncr_from_lp, normalize_critical_load"), ("feasible region", OUT + ": penalty_g1, penalty_g2, natural_constraint_g"), ("optimisation", OMX)],
 observe=["result x, fun, success"])

prop("C17", "Weight minimisation returns the thinnest panel that carries the loads",
 "Whenever weight minimisation reports success, the returned thickness and lamination parameters are feasible, the panel they describe does not buckle under the applied loads, and no feasible lamination parameters allow a noticeably (2 percent) thinner panel. The reported objective is the cube of the returned thickness. It does succeed on well-conditioned panels, whatever the starting point and the units, and obeys the caller's iteration limit.",
 ["inputs", "configurations"], "all panel shapes, materials, supports, load magnitudes and ratios, starting points; every competing point of the feasible region",
 "The only test of this function is excluded as flaky; it compares one panel with printed values at 10 percent.",
 [OMN, OUT], [("constraints and optimisation", OMN), ("critical load", OUT + ": Ncr_from_lp, normalize_critical_load")],
 observe=["result x, fun, success"])

prop("C18", "Buckling obeys similarity, symmetry and refinement laws",
 "Multiplying all moduli by a factor multiplies the buckling factors by it, multiplying the loads divides them by it, multiplying all ply thicknesses multiplies them by its cube, and multiplying both plate dimensions divides them by its square. Exchanging the roles of x and y (dimensions, supports, loads, series sizes, ply angles measured from the other axis), mirroring the plate, turning all plies by 180 degrees, or turning the lay-up upside down leaves them unchanged. Enlarging a series never raises the n-th factor.",
 ["inputs", "configurations", "histories"], "all plates and all sequences of such transformations applied one after the other",
 "Each test analyses one plate; no two analyses are ever related to each other.",
 [PLT, BK, PRO], [("stiffness assembly", BK), ("laminate stiffness", PRO), ("eigenvalues", PLT + ": buckling_analysis")],
 observe=["buckling_analysis()"])

prop("C19", "Equality of materials and laminates is faithful to their content",
 "Two materials of the same kind are equal exactly when all their engineering constants, thickness and allowables are equal, whatever their names; two laminates are equal exactly when they have the same ply angles and equal plies in the same order, or, when defined by lamination parameters, the same parameters, thickness and material. Equality is reflexive, symmetric and transitive, inequality is its negation, and equal laminates have equal stiffness. Comparing a laminate with something that is not a laminate is never equal.",
 ["inputs"], "all pairs and triples of materials and laminates differing in any single attribute, or only in name or container type",
 "No test compares two objects.",
 [MAT, PRO], [("comparisons", MAT + ": __eq__; " + PRO + ": __eq__")],
 observe=["== and !=", "A, B, D"])

prop("C20", "Optimisers depend on load ratios and warn about unsuitable loads",
 "Multiplying all applied loads by a positive factor leaves the outcome of buckling-load maximisation unchanged, and multiplies the optimal thickness of weight minimisation by the cube root of that factor. Each optimiser warns that loads are unsuitable exactly when neither normal load is compressive and there is no shear, and warns about normalisation exactly when some load magnitude exceeds 1.",
 ["inputs", "configurations"], "all load triples and positive load factors",
 "One load triple is optimised once; the warnings and scaling are never checked.",
 [OUT, OMX, OMN], [("load screening", OUT + ": check_loads, normalize_critical_load")],
 observe=["result x, fun", "warnings raised"])

prop("C21", "The optimisation plot shows the feasible critical loads and the optimum",
 "When plotting is requested, the drawn field covers the square of lamination parameters with the requested number of points per side, holds at each feasible point the critical load factor of the panel with those parameters under the applied loads, and is blank at every infeasible point. The marked optimum is the returned one and the drawn boundary is that of the selected feasible region. Requesting the plot does not change the result.",
 ["inputs", "configurations"], "all panels, loads, point counts and both feasible regions",
 "Tests switch plotting off.",
 [OUT, OMX], [("plot data", OUT + ": plot_optimization, _constraint")],
 observe=["arguments handed to the contour and line plots"])

prop("C22", "Every documented way of writing a call means the same binding",
 "For every public constructor, method and function, arguments given by position in the documented order, by name in any order, or omitted where a default is documented (no load, pinned edges, ten functions per direction for a plate and seven for the optimisers, five eigenvalues, first mode, 20 by 20 grid, fibre-stress output on the outer plies, triangular region, no plot, starting point 0.1, 0, 0) mean the same as the call that names every parameter with that value: it has the same outcome, and has it again when it is repeated later.",
 ["inputs", "configurations"], "all callables, bindings and ways of writing them (number of positional arguments, order of the named ones, which defaults are left out)",
 "Tests write each call in one way and never compare a default with its written-out value.",
 [MAT, PRO, STR, PLT, PCO, OMX, OMN], [("signatures and defaults", MAT + ", " + PLT + ", " + STR + ": __init__; " + PCO + ": build_pcomp; " + OMX + "; " + OMN)],
 observe=["results of the calls"])

prop("C23", "A printed object shows exactly what it was built from",
 "Printing an object (repr, str or formatting) shows its definition in full. A material shows its name, and each of its constants once, under its own label (E1, E2, v12, G12, thickness, T1, C1, T2, C2, S; for isotropic materials E, v, G, thickness, T, C, S), as a number that reads back as exactly the value held. A laminate shows its stacking: the angles from the bottom up, or the parameters it was given and its thickness. The text is the same whenever it is printed, and printing changes nothing.",
 ["inputs"], "all materials and laminates, all values and names, all containers of the stacking",
 "No test prints an object.",
 [MAT, PRO], [("representations", MAT + ": __repr__; " + PRO + ": __repr__")],
 observe=["repr and str"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
