----------------------------- MODULE MC_Optimum -----------------------------
(***************************************************************************)
(* The search as a transition system, on panels with an aim placed below   *)
(* or above what the region allows.  Half-planes never exclude a point     *)
(* that reaches the aim (judged on a lattice); the polygon shrinks; the    *)
(* answers agree with the lattice; at the end there is an answer.          *)
(***************************************************************************)
EXTENDS Optimum
CONSTANTS Size, Grid, Sides
VARIABLES panel, region, aim, poly, answer, k
vars == <<panel, region, aim, poly, answer, k>>
Loads == << <<-10, 0, 0>>, <<-6, -10, 0>>, <<0, 0, 10>>, <<-10, 3, -5>> >>
Panels == [c : {<<"default">>, <<"edges", <<"word", "clamped">>, <<"word", "pinned">>, <<"word", "pinned">>, <<"list">>>>},
           side : Sides, N : 1..4]
Panel(p) == [mat |-> Ortho(FInt(130000), FInt(9000), FRat(31, 100), FInt(5100)), T |-> FRat(37, 10),
             c |-> p.c, m |-> Size, n |-> Size, a |-> FInt(400), b |-> FInt(p.side)]
Fam(p) == Family(Panel(p))
Geo(p) == GeoOf(Panel(p), UnitLoads([i \in 1..3 |-> FInt(Loads[p.N][i])]))
\* the best of the lattice points by bisection, to 2^-9
Lattice(r) == {q \in {<<FRat(i, Grid), FRat(j, Grid)>> : i, j \in -Grid..Grid} : InRegion(r, q, FTenTo(12))}
RECURSIVE Bisect(_, _, _, _)
Bisect(K, G, lo, k9) == IF k9 = 0 THEN lo
    ELSE LET up == FMul(lo, FAdd(FOne, FRat(1, 2 ^ (10 - k9)))) IN Bisect(K, G, IF Below(K, G, up) = 0 THEN up ELSE lo, k9 - 1)
\* (the bisection covers a factor of 2.38, so the start is halved only until nothing lies below it)
RECURSIVE Halve(_, _, _)
Halve(K, G, x) == IF Below(K, G, x) = 0 THEN x ELSE Halve(K, G, FDivI(x, 2))
FirstOf(F, G, q) == Bind(KAt(F, q), LAMBDA K : Bisect(K, G, Halve(K, G, FMulI(FDiv(MatMaxAbs(K), MatMaxAbs(G)), 8)), 9))
Best(p, r) == Bind(<<Fam(p), Geo(p)>>, LAMBDA FG :
    Bind({FirstOf(FG[1], FG[2], q) : q \in Lattice(r)}, LAMBDA S : CHOOSE x \in S : \A y \in S : FLe(y, x)))
\* aims in percent of the lattice's best
Aims == {60, 97, 125}
Init == /\ LoadPlate /\ panel \in Panels /\ region \in {"triangle", "parabola"} /\ k = 0 /\ answer = "" /\ poly = Polygon(region)
        /\ \E top \in {Best(panel, region)} : aim \in {<<f, FMul(top, FRat(f, 100))>> : f \in Aims}
Step(p, g) == IF g = <<>> THEN answer' = "found" /\ poly' = poly ELSE answer' = "" /\ poly' = Clip(poly, g)
Next == /\ answer = "" /\ k' = k + 1 /\ UNCHANGED <<panel, region, aim>>
        /\ IF poly = <<>> THEN answer' = "none" /\ poly' = poly
           ELSE \E p \in {Centre(poly)} : \E g \in {Half(Fam(panel), Geo(panel), aim[2], p)} : Step(p, g)
Inside(P, q) == \A i \in 1..Len(P) : FLe(FNeg(FTenTo(12)), Cross(P[i], P[IF i = Len(P) THEN 1 ELSE i + 1], q))
\* no point that reaches the aim is ever excluded
NothingLost == \A FG \in {<<Fam(panel), Geo(panel)>>} :
    \A q \in {q \in Lattice(region) : Inside(Polygon(region), q) /\ ~Inside(poly, q)} : Below(KAt(FG[1], q), FG[2], aim[2]) > 0
AnswersAgree == /\ answer = "found" => aim[1] # 125
                /\ answer = "none"  => aim[1] = 125
StaysFeasible == \A i \in 1..Len(poly) : InRegion(region, poly[i], FTenTo(9))
Ends == k <= 30
SearchAgrees == k = 0 => Reached(Fam(panel), Geo(panel), aim[2], region) = (IF aim[1] = 125 THEN "none" ELSE "found")
\* the cube law: thickness T(1 + d) multiplies every factor by (1 + d)^3
CubeLaw == k = 0 => \A p \in {Centre(poly)} : \A K \in {KAt(Fam(panel), p)} :
    MatNear(KAt(Family([Panel(panel) EXCEPT !.T = FMulI(@, 2)]), p), MatScale(FInt(8), K), FTenTo(20), MatMaxAbs(K))
=============================================================================
