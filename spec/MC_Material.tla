---------------------------- MODULE MC_Material ----------------------------
(***************************************************************************)
(* Every material of a small grid of engineering constants, turned through *)
(* every angle of a grid.  The invariants tie the closed forms used by the *)
(* conformance modules to the physics they stand for: the reduced          *)
(* stiffness inverts the compliance, the rotated stiffness is the one      *)
(* obtained by transforming stresses and strains, and the two formulas for *)
(* it (trigonometric and by invariants) agree.                             *)
(***************************************************************************)
EXTENDS Material

Mods == {1, 10, 137}
Nus == {-450, -100, 0, 300, 500}
Turns == {0, 15, 30, 45, 60, 90, 135, -20, 200}
VARIABLES e1, e2, v, g, turn
vars == <<e1, e2, v, g, turn>>
M == Ortho(FInt(e1), FInt(e2), FRat(v, 1000), FInt(g))
Valid(a, b, nu) == nu * nu < (1000000 * a) \div b
Init == /\ e1 \in Mods /\ e2 \in Mods /\ v \in Nus /\ g \in {1, 40} /\ turn = 0
        /\ Valid(e1, e2, v)
Next == turn' \in Turns /\ turn = 0 /\ UNCHANGED <<e1, e2, v, g>>

Eps == FTenTo(36)
Cs == FCosSinDeg(FInt(turn))
Q0 == Stiff(M)
Qm == QMat(Q0)
Id == IdMat(3)

InverseOfCompliance == MatNear(MatMul(Qm, Compliance(M)), Id, Eps, FOne)
PositiveDefinite == IsPosDef(Qm) /\ IsPosDef(QBar(Q0, Cs))
Minor == FNear(FDiv(V21(M), M.e2), FDiv(M.v12, M.e1), Eps, FOne)
\* T_stress . Qbar = Q . T_strain  (material stresses from plate strains, both ways round)
TwoRoutes == MatNear(MatMul(TStress(Cs), QBar(Q0, Cs)), MatMul(Qm, TStrain(Cs)), Eps, FInt(1000))
InvariantRoute == MatNear(QBarU(Invariants(Q0), Cs), QBar(Q0, Cs), Eps, FInt(1000))
\* energy: T_strain^T is the inverse of T_stress
EnergyDual == MatNear(MatMul(TStress(Cs), Transpose(TStrain(Cs))), Id, Eps, FOne)
RotationInvariants ==
    LET b == QBar(Q0, Cs) IN
    /\ FNear(FAdd(b[1][1], FAdd(b[2][2], FMulI(b[1][2], 2))),
             FAdd(Q0[1], FAdd(Q0[3], FMulI(Q0[2], 2))), Eps, FInt(1000))
    /\ FNear(FSub(b[3][3], b[1][2]), FSub(Q0[4], Q0[2]), Eps, FInt(1000))
IsoUnturned ==
    LET iso == Stiff(Iso(FInt(e1), FRat(v, 1000), FDiv(FInt(e1), FMulI(FRat(1000 + v, 1000), 2)))) IN
    MatNear(QBar(iso, Cs), QMat(iso), Eps, FInt(1000))
=============================================================================
