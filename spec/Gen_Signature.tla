---------------------------- MODULE Gen_Signature ---------------------------
(* A behaviour draws a binding for one callable and rewrites the call that  *)
(* names everything, in random order, until it is emitted.                  *)
EXTENDS Signature, Draw
CONSTANT Which
VARIABLE steps
Edges == {"'PINNED'", "'CLAMPED'", "{'x0': 'CLAMPED', 'xa': 'PINNED', 'y0': 'PINNED', 'yb': 'FREE'}"}
Load(d) == Pick({"0", "0", "-1", "-0.5", "0.25", "-0.75"})
Pool(g, n) ==
    CASE n \in {"Nxx", "Nyy"} /\ g \in {"maximise", "minimise"} -> Pick({"0", "-1", "-0.5", "-0.25"})
      [] n \in {"Nxx", "Nyy", "Nxy"} -> Load(0)
      [] n \in {"Mxx", "Myy", "Mxy"} -> Pick({"0", "3", "-7.5", "11"})
      [] n \in {"e1", "E1"} -> Pick({"130000", "60000.0", "91e3"})
      [] n \in {"e2", "E2"} -> Pick({"9370", "15000.0", "21000"})
      [] n \in {"e"} -> Pick({"70000", "210e3"})
      [] n \in {"v12", "v"} -> Pick({"0.38", "0.1", "0.27"})
      [] n \in {"g12", "G12", "g"} -> Pick({"5240", "3900.0", "7000"})
      [] n = "thickness" -> Pick({"0.2", "0.125", "1"})
      [] n \in {"t1", "c1", "t2", "c2", "s", "t", "c"} -> Pick({"0", "0", "1500.0", "30", "250", "88.5"})
      [] n = "a" -> Pick({"400", "350.0", "520"})
      [] n = "b" -> Pick({"300", "280.0", "610"})
      [] n = "T" -> Pick({"3", "4.5"})
      [] n = "m" -> IF g = "plate" THEN Pick({"2", "3", "5", "10"}) ELSE Pick({"2", "3", "4", "7"})
      [] n = "n" -> IF g = "plate" THEN Pick({"2", "3", "4", "10"}) ELSE Pick({"2", "3", "5", "7"})
      [] n \in {"constraints", "panel_constraint"} -> Pick(Edges)
      [] n = "options" -> Pick({"None", "{'maxiter': 2}", "{'maxiter': 2}"})
      [] n = "tol" -> Pick({"None", "1e-3"})
      [] n = "plot" -> Pick({"False", "True"})
      [] n = "points_to_plot" -> Pick({"30", "4", "7"})
      [] n = "penalty" -> Pick({"True", "False"})
      [] n = "x0" -> Pick({"[0.1, 0.0, 0.0]", "[5.0, 0.2, 0.1]"})
      [] n = "silent" -> Pick({"True", "False"})
      [] n = "num_eigvalues" -> Pick({"5", "1", "3"})
      [] n = "nth" -> Pick({"0", "1", "2"})
      [] n = "ngridx" -> Pick({"20", "3", "6"})
      [] n = "ngridy" -> Pick({"20", "2", "5"})
      [] n = "dproperty" -> Pick({"@lam1", "@lam2"})
      [] n = "stacking" -> IF g = "sequence" THEN Pick({"'[45/0_2/90]s'", "'0/90'", "'[\\pm45_2/(0/90)_2]'"})
                           ELSE Pick({"[0, 90, 45]", "(30, -30, 0)", "[12.5, 90, -60]"})
      [] n = "plies" -> Pick({"@ply1", "@ply2", "@three"})
      [] n = "sequence" -> Pick({"[0, 90, 45]", "[30, -30, 0, 15]", "(90,)"})
      [] n = "midi" -> Pick({"1", "7"})
      [] n = "ti" -> Pick({"0.2", "0.125"})
      [] n = "pid" -> Pick({"1", "12"})
      [] n = "z0" -> Pick({"''", "0.5"})
      [] n = "sout" -> Pick({"'FIBER'", "'YES'", "'NO'"})
\* optional parameters keep their default half of the time; an optimisation is loaded and its drawing small
Value(g, i) == IF Optional(g, i) /\ Chance(2) THEN Sig[g][i].dflt ELSE Pool(g, Sig[g][i].name)
Draft(g) == [i \in 1..Count(g) |-> Value(g, i)]
Side(g) == IF Chance(2) THEN At(g, "m") ELSE At(g, "n")
\* many functions in one direction: few in the other, and one step of the optimiser
Fix(g, b) ==
    IF g \notin {"maximise", "minimise"} THEN b
    ELSE LET c0 == IF g = "maximise" /\ b[At(g, "plot")] = "True" /\ b[At(g, "points_to_plot")] = "30"
                   THEN [b EXCEPT ![At(g, "m")] = "2", ![At(g, "n")] = "2"] ELSE b
             c == IF \E n \in {"Nxx", "Nyy"} : c0[At(g, n)] # "0" THEN c0 ELSE [c0 EXCEPT ![At(g, "Nyy")] = "-1"]
             big == {n \in {"m", "n"} : c[At(g, n)] \in {"5", "7"}}
             d == IF big = {"m", "n"} THEN [c EXCEPT ![Side(g)] = "2"] ELSE c
         IN IF big = {} THEN d
            ELSE [d EXCEPT ![At(g, "options")] = "{'maxiter': 2}"]
Fresh == \E g \in {RandomElement(Which)} : \E b \in {TLCEval(Fix(g, TLCEval(Draft(g))))} :
            /\ fn' = g /\ given' = b /\ call' = Full(g, b) /\ steps' = 4 * Count(g)
Init == steps = 0 /\ fn = "iso" /\ given = <<>> /\ call = [pos |-> <<>>, kw |-> <<>>]
Kinds(c) == {S \in {Positioned(fn, c), Omitted(fn, c), Swapped(c)} : S # {}}
Rare(c) == {S \in {Named(fn, c), Written(fn, c)} : S # {}}
Turn == /\ steps > 0 /\ steps' = steps - 1
        /\ \E K \in {IF Chance(4) /\ Rare(call) # {} THEN Rare(call) ELSE Kinds(call)} :
              IF K = {} THEN UNCHANGED call ELSE \E S \in {RandomElement(K)} : call' = RandomElement(S)
        /\ IF steps > 1 THEN TRUE ELSE Emit("call", [f |-> fn, names |-> [i \in 1..Count(fn) |-> Sig[fn][i].name], call |-> call', given |-> given])
        /\ UNCHANGED <<fn, given>>
Next == (steps = 0 /\ Fresh) \/ Turn
=============================================================================
