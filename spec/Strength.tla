------------------------------ MODULE Strength ------------------------------
(***************************************************************************)
(* Classical lamination theory under membrane loads and moments.           *)
(* Rows of the result tables: two per ply, bottom face then top face, from *)
(* the bottom ply up; row r belongs to ply (r+1)/2.                        *)
(***************************************************************************)
EXTENDS Layup

LamStiff(pl) == ABD(AMat(pl), BMat(pl), DMat(pl))
MidStrain(pl, N) == Solve(LamStiff(pl), N)

NRows(pl) == 2 * Len(pl)
PlyOf(r) == (r + 1) \div 2
FaceOf(r) == IF r % 2 = 1 THEN "bot" ELSE "top"
ZOf(z, r) == IF r % 2 = 1 THEN z[PlyOf(r)] ELSE z[PlyOf(r) + 1]
StrainAt(e0, zz) == Vec(3, LAMBDA i : FAdd(e0[i], FMul(zz, e0[i + 3])))
StressIn(p, eps) == MatVec(QBar(p.q, p.cs), eps)
ToMatStrain(p, eps) == MatVec(TStrain(p.cs), eps)
ToMatStress(p, sig) == MatVec(TStress(p.cs), sig)

\* Resultants of stresses given on the faces of every ply (linear in between)
Resultants(pl, z, sig(_)) ==
    LET N(i) == FoldLeft(LAMBDA acc, k :
                   FAdd(acc, FDivI(FMul(pl[k].t, FAdd(sig(2 * k - 1)[i], sig(2 * k)[i])), 2)), FZero, Idx(Len(pl)))
        M(i) == FoldLeft(LAMBDA acc, k :
                   LET zb == z[k]  zt == z[k + 1]
                   IN FAdd(acc, FDivI(FMul(pl[k].t,
                        FAdd(FMul(sig(2 * k - 1)[i], FAdd(FMulI(zb, 2), zt)),
                             FMul(sig(2 * k)[i], FAdd(zb, FMulI(zt, 2))))), 6)), FZero, Idx(Len(pl)))
    IN Vec(6, LAMBDA i : IF i <= 3 THEN N(i) ELSE M(i - 3))

\* Maximum-stress modes: t1, c1, t2, c2, s.  Acting magnitude of each mode.
Modes == <<"margin_t1", "margin_c1", "margin_t2", "margin_c2", "margin_s">>
Pos(x) == IF x[1] = 1 THEN x ELSE FZero
Acting(s123) == <<Pos(s123[1]), Pos(FNeg(s123[1])), Pos(s123[2]), Pos(FNeg(s123[2])), FAbs(s123[3])>>
\* Margin of an allowable (positive) against an acting magnitude
\* (an allowable of zero, one not given, is exceeded by any stress and undecided without)
Margin(al, act) == IF act[1] = 0 THEN IF al[1] = 0 THEN NaN ELSE PInf ELSE FSub(FDiv(al, act), FOne)
MLe(x, y) == y \in {PInf, NaN} \/ (IsFx(x) /\ FLe(x, y))
=============================================================================
