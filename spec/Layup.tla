-------------------------------- MODULE Layup -------------------------------
(***************************************************************************)
(* Laminates: sequences of plies from the bottom face up.  A ply is a      *)
(* record [q, t, cs]: its stiffness <<Q11,Q12,Q22,Q66>>, thickness and     *)
(* <<cos, sin>> of its angle.                                              *)
(***************************************************************************)
EXTENDS Material

MkPly(m, t, theta) == [q |-> Stiff(m), t |-> t, cs |-> TLCEval(FCosSinDeg(theta))]

Thick(pl) == FSum([i \in 1..Len(pl) |-> pl[i].t])

\* Interface heights from the mid-plane: Len(pl)+1 of them
Heights(pl) ==
    FoldLeft(LAMBDA z, i : Append(z, FAdd(z[Len(z)], pl[i].t)),
             <<FNeg(FDivI(Thick(pl), 2))>>, Idx(Len(pl)))

\* Integral over the thickness of the ply stiffness times z^k (k = 0, 1, 2)
ZPow(z, k) == IF k = 0 THEN z ELSE IF k = 1 THEN FSq(z) ELSE FCube(z)
Integrate(pl, z, k) ==
    FoldLeft(LAMBDA acc, i :
                MatAdd(acc, MatScale(FDivI(FSub(ZPow(z[i + 1], k), ZPow(z[i], k)), k + 1),
                                     QBar(pl[i].q, pl[i].cs))),
             ZeroMat(3, 3), Idx(Len(pl)))
AMat(pl) == Integrate(pl, Heights(pl), 0)
BMat(pl) == Integrate(pl, Heights(pl), 1)
DMat(pl) == Integrate(pl, Heights(pl), 2)
ABD(A, B, D) ==
    MatOf(6, 6, LAMBDA i, j : IF i <= 3 /\ j <= 3 THEN A[i][j]
                              ELSE IF i <= 3 THEN B[i][j - 3]
                              ELSE IF j <= 3 THEN B[i - 3][j] ELSE D[i - 3][j - 3])

\* Lamination parameters
Circ(cs) == LET c2 == FSub(FSq(cs[1]), FSq(cs[2]))  s2 == FMulI(FMul(cs[1], cs[2]), 2)
            IN <<c2, s2, FSub(FSq(c2), FSq(s2)), FMulI(FMul(c2, s2), 2)>>
XiWeighted(pl, w) ==
    Vec(4, LAMBDA k : FSum([i \in 1..Len(pl) |-> FMul(w[i], Circ(pl[i].cs)[k])]))
XiA(pl) == LET h == Thick(pl) IN XiWeighted(pl, Vec(Len(pl), LAMBDA i : FDiv(pl[i].t, h)))
XiD(pl) == LET h == Thick(pl)  z == Heights(pl) IN
           XiWeighted(pl, Vec(Len(pl), LAMBDA i :
               FDiv(FMulI(FSub(FCube(z[i + 1]), FCube(z[i])), 4), FCube(h))))

\* Extensional and bending stiffness from lamination parameters
FromXi(u, xi) ==
    LET b11 == FAdd(u[1], FAdd(FMul(u[2], xi[1]), FMul(u[3], xi[3])))
        b22 == FAdd(FSub(u[1], FMul(u[2], xi[1])), FMul(u[3], xi[3]))
        b12 == FSub(u[4], FMul(u[3], xi[3]))
        b66 == FSub(u[5], FMul(u[3], xi[3]))
        b16 == FAdd(FDivI(FMul(u[2], xi[2]), 2), FMul(u[3], xi[4]))
        b26 == FSub(FDivI(FMul(u[2], xi[2]), 2), FMul(u[3], xi[4]))
    IN <<<<b11, b12, b16>>, <<b12, b22, b26>>, <<b16, b26, b66>>>>
AFromXi(q, xi, h) == MatScale(h, FromXi(Invariants(q), xi))
DFromXi(q, xi, h) == MatScale(FDivI(FCube(h), 12), FromXi(Invariants(q), xi))

\* Feasible region of lamination parameters (necessary conditions, any laminate)
XiFeasible(xi, tol) ==
    /\ \A k \in 1..4 : FLe(FAbs(xi[k]), FAdd(FOne, tol))
    /\ FLe(FAdd(FSq(xi[1]), FSq(xi[2])), FAdd(FOne, tol))
    /\ FLe(FSub(FMulI(FSq(xi[1]), 2), FOne), FAdd(xi[3], tol))
    /\ FLe(FSub(FMulI(FSq(xi[2]), 2), FOne), FAdd(FNeg(xi[3]), tol))
=============================================================================
