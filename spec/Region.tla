------------------------------- MODULE Region -------------------------------
(***************************************************************************)
(* Feasible regions of the lamination parameters (xi1, xi3), and convex    *)
(* polygons in that plane.                                                 *)
(***************************************************************************)
EXTENDS LinAlg

\* The boundary's xi3 over xi1: the triangle of 0, 45 and 90 degree plies, or
\* the parabola that bounds all laminates
Floor(region, x1) == IF region = "triangle" THEN FSub(FMulI(FAbs(x1), 2), FOne)
                     ELSE FSub(FMulI(FSq(x1), 2), FOne)
Slack(region, p) == FSub(p[2], Floor(region, p[1]))
InBox(p, tol) == FLe(FAbs(p[1]), FAdd(FOne, tol)) /\ FLe(FAbs(p[2]), FAdd(FOne, tol))
InRegion(region, p, tol) == FLe(FNeg(tol), Slack(region, p)) /\ InBox(p, FTenTo(9))

\* A polygon whose points are all feasible (the parabola by its chords), counter-clockwise
Polygon(region) ==
    IF region = "triangle" THEN <<<<FZero, FNeg(FOne)>>, <<FOne, FOne>>, <<FNeg(FOne), FOne>>>>
    ELSE [k \in 1..17 |-> <<FRat(k - 9, 8), Floor(region, FRat(k - 9, 8))>>]

At(g, p) == FAdd(g[1], FAdd(FMul(g[2], p[1]), FMul(g[3], p[2])))
Between(p, q, s, t) ==                          \* where the line takes 0, with s at p and t at q
    LET r == TLCEval(FDiv(s, FSub(s, t))) IN
    <<FAdd(p[1], FMul(r, FSub(q[1], p[1]))), FAdd(p[2], FMul(r, FSub(q[2], p[2])))>>
\* The part of the polygon with At(g, .) >= 0
Clip(P, g) ==
    Bind([i \in 1..Len(P) |-> At(g, P[i])], LAMBDA v :
      TLCEval(FoldLeft(LAMBDA acc, i :
        LET j == IF i = Len(P) THEN 1 ELSE i + 1
            own == IF v[i][1] >= 0 THEN <<P[i]>> ELSE <<>>
            mid == IF v[i][1] * v[j][1] = -1 THEN <<Between(P[i], P[j], v[i], v[j])>> ELSE <<>>
        IN acc \o own \o mid, <<>>, Idx(Len(P)))))

\* Twice the area of a triangle, and the centre of a polygon (of its corners when it is very thin)
Cross(o, p, q) == FSub(FMul(FSub(p[1], o[1]), FSub(q[2], o[2])), FMul(FSub(p[2], o[2]), FSub(q[1], o[1])))
Fan(P) == [i \in 1..(Len(P) - 2) |-> Cross(P[1], P[i + 1], P[i + 2])]
Area2(P) == IF Len(P) < 3 THEN FZero ELSE FSum(Fan(P))
MeanOf(P, k) == FDivI(FSum([i \in 1..Len(P) |-> P[i][k]]), Len(P))
Centre(P) ==
    Bind(Area2(P), LAMBDA s :
      IF FLe(s, FTenTo(20)) THEN <<MeanOf(P, 1), MeanOf(P, 2)>>
      ELSE Bind(Fan(P), LAMBDA w :
             [k \in 1..2 |-> FAdd(P[1][k], FDivI(FDiv(FSum([i \in 1..Len(w) |->
                  FMul(w[i], FAdd(FSub(P[i + 1][k], P[1][k]), FSub(P[i + 2][k], P[1][k])))]), s), 3))]))
=============================================================================
