------------------------------ MODULE Optimum -------------------------------
(***************************************************************************)
(* Panels described by lamination parameters, and the question an          *)
(* optimiser answers: which point (xi1, xi3) of a region carries most.     *)
(*                                                                         *)
(* K is affine in the point, so {p : the critical factor at p >= mu} =     *)
(* {p : K(p) + mu KG is positive semidefinite} is convex, and a vector c   *)
(* with c'(K(p) + mu KG) c < 0 excludes a half-plane of points at once.    *)
(* Search looks for a point that reaches mu: it tests the centre of the    *)
(* points not yet excluded; elimination either shows the centre reaches mu *)
(* or yields such a c.  "none" is therefore a proof over every point of    *)
(* the polygon, "found" shows a competitor.                                *)
(***************************************************************************)
EXTENDS Buckling, Region, Layup

\* ---- loads
MaxLoad(N) == FMaxAbs(N)
UnitLoads(N) == Bind(MaxLoad(N), LAMBDA s : [i \in 1..3 |-> FDiv(N[i], s)])

\* ---- panels  [mat, T, c, m, n, a, b]
PanelXi(p) == <<p[1], FZero, p[2], FZero>>
\* K(p) = F[1] + p1 F[2] + p2 F[3]
Family(P) ==
    Bind(Stiff(P.mat), LAMBDA q :
    Bind(<<DFromXi(q, PanelXi(<<FZero, FZero>>), P.T), DFromXi(q, PanelXi(<<FOne, FZero>>), P.T), DFromXi(q, PanelXi(<<FZero, FOne>>), P.T)>>,
      LAMBDA D : LET K(M) == Values(StiffBlock(P.c, P.m, P.n, "w", "w", FromD(M), FZero, P.a, P.b)) IN
        TLCEval(<<K(D[1]), K(MatSub(D[2], D[1])), K(MatSub(D[3], D[1]))>>)))
GeoOf(P, N) == Values(LoadBlock(P.c, P.m, P.n, N, P.a, P.b))
KAt(F, p) == TLCEval([i \in 1..Len(F[1]) |-> [j \in 1..Len(F[1]) |->
                 FAdd(F[1][i][j], FAdd(FMul(p[1], F[2][i][j]), FMul(p[2], F[3][i][j])))]])

\* ---- the first negative pivot of a symmetric matrix and a vector c with c'Mc = that pivot
FirstNegative(M) ==
    FoldLeft(LAMBDA st, k :
               IF st[2] > 0 THEN st
               ELSE IF st[1][1][1][1] < 0 THEN <<st[1], k>>
               ELSE <<IF Len(st[1]) = 1 THEN st[1] ELSE SchurStep(st[1]), 0>>,
             <<UpperOf(M), 0>>, Idx(Len(M)))[2]
NegativeVector(M, k) ==
    IF k = 1 THEN <<FOne>>
    ELSE Bind([i \in 1..(k - 1) |-> [j \in 1..(k - 1) |-> M[i][j]]], LAMBDA A :
         Bind([i \in 1..(k - 1) |-> FNeg(M[i][k])], LAMBDA r : Append(Solve(A, r), FOne)))
Quad(M, c) == FSum([i \in 1..Len(c) |-> FMul(c[i], FSum([j \in 1..Len(c) |-> FMul(M[i][j], c[j])]))])

\* ---- one step of the search: the half-plane excluded by testing the point p
Half(F, KG, mu, p) ==
    Bind(Pencil(KAt(F, p), KG, mu), LAMBDA M :
    Bind(FirstNegative(M), LAMBDA k :
      IF k = 0 THEN <<>>
      ELSE Bind(NegativeVector(M, k), LAMBDA c :
             TLCEval(<<FAdd(Quad(F[1], c), FMul(mu, Quad(KG, c))), Quad(F[2], c), Quad(F[3], c)>>))))
RECURSIVE Search(_, _, _, _, _)
Search(F, KG, mu, P, fuel) ==
    IF P = <<>> THEN "none"
    ELSE IF fuel = 0 THEN "open"
    ELSE Bind(Centre(P), LAMBDA p : Bind(Half(F, KG, mu, p), LAMBDA g :
           IF g = <<>> THEN "found" ELSE Search(F, KG, mu, Clip(P, g), fuel - 1)))
Reached(F, KG, mu, region) == Search(F, KG, mu, Polygon(region), 60)
=============================================================================
