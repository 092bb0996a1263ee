------------------------------ MODULE MC_Layup ------------------------------
(***************************************************************************)
(* Laminates grow one ply at a time on the top face; every laminate of up  *)
(* to MaxPlies plies over a palette of plies is a state.  The invariants   *)
(* are the facts about through-thickness integration that the conformance  *)
(* modules rely on, derived by a second route in each case.                *)
(***************************************************************************)
EXTENDS Layup
CONSTANT MaxPlies, OneMaterial

Mat1 == Ortho(FInt(130), FInt(9), FRat(38, 100), FInt(5))
Mat2 == Iso(FInt(70), FRat(33, 100), FInt(26))
Palette == IF OneMaterial
           THEN <<MkPly(Mat1, FRat(1, 5), FZero), MkPly(Mat1, FRat(1, 5), FInt(30)), MkPly(Mat1, FRat(2, 5), FInt(-50)),
                  MkPly(Mat1, FRat(1, 5), FInt(90))>>
           ELSE <<MkPly(Mat1, FRat(1, 5), FInt(30)), MkPly(Mat2, FRat(1, 2), FInt(30)), MkPly(Mat1, FRat(3, 10), FInt(-45))>>
Pal == TLCEval(Palette)
VARIABLE lam                     \* sequence of palette indices, bottom first
Init == \E i \in DOMAIN Pal : lam = <<i>>
Next == Len(lam) < MaxPlies /\ \E i \in DOMAIN Pal : lam' = Append(lam, i)

pl == TLCEval([i \in 1..Len(lam) |-> Pal[lam[i]]])
rev == TLCEval([i \in 1..Len(lam) |-> pl[Len(lam) + 1 - i]])
Eps == FTenTo(36)
Sc == FInt(1000)
Near(X, Y) == MatNear(X, Y, Eps, Sc)
Z33 == ZeroMat(3, 3)

Contiguous == LET z == Heights(pl) IN
    /\ Len(z) = Len(pl) + 1
    /\ FNear(z[Len(z)], FDivI(Thick(pl), 2), Eps, FOne)
    /\ \A i \in 1..Len(pl) : FSub(z[i + 1], z[i]) = pl[i].t
UpsideDown == Near(AMat(rev), AMat(pl)) /\ Near(BMat(rev), MatScale(FInt(-1), BMat(pl))) /\ Near(DMat(rev), DMat(pl))
SymmetricUncoupled == lam = [i \in 1..Len(lam) |-> lam[Len(lam) + 1 - i]] => Near(BMat(pl), Z33)
\* mid-point rule with the exact second moment: an independent way to integrate
MidPoint ==
    LET z == Heights(pl)
        c(i) == FDivI(FAdd(z[i], z[i + 1]), 2)
        S(W(_)) == FoldLeft(LAMBDA acc, i : MatAdd(acc, MatScale(W(i), QBar(pl[i].q, pl[i].cs))), Z33, Idx(Len(pl)))
    IN /\ Near(BMat(pl), S(LAMBDA i : FMul(pl[i].t, c(i))))
       /\ Near(DMat(pl), S(LAMBDA i : FAdd(FMul(pl[i].t, FSq(c(i))), FDivI(FCube(pl[i].t), 12))))
Positive == IsPosDef(ABD(AMat(pl), BMat(pl), DMat(pl)))
Feasible == XiFeasible(XiA(pl), Eps) /\ XiFeasible(XiD(pl), Eps)
\* one material: lamination parameters and thickness determine A and D
FromParameters ==
    OneMaterial => LET h == Thick(pl) IN
                   /\ Near(AFromXi(pl[1].q, XiA(pl), h), AMat(pl))
                   /\ Near(DFromXi(pl[1].q, XiD(pl), h), DMat(pl))
=============================================================================
