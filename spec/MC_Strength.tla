---------------------------- MODULE MC_Strength ----------------------------
(***************************************************************************)
(* Laminates over a palette, growing one ply at a time, then loaded one    *)
(* load component at a time.  Invariants: the stresses found from the      *)
(* mid-plane strains balance the loads ply by ply, both axis systems store *)
(* the same energy, and a margin is negative exactly when the stress       *)
(* exceeds the allowable.                                                  *)
(***************************************************************************)
EXTENDS Strength
CONSTANT MaxPlies
Mat1 == Ortho(FInt(130), FInt(9), FRat(38, 100), FInt(5))
Mat2 == Iso(FInt(70), FRat(33, 100), FInt(26))
Pal == TLCEval(<<MkPly(Mat1, FRat(1, 5), FInt(30)), MkPly(Mat2, FRat(1, 2), FInt(10)), MkPly(Mat1, FRat(3, 10), FInt(-45))>>)
VARIABLES lam, load
Init == load = [i \in 1..6 |-> 0] /\ \E i \in DOMAIN Pal : lam = <<i>>
Grow == Len(lam) < MaxPlies /\ load = [i \in 1..6 |-> 0] /\ \E i \in DOMAIN Pal : lam' = Append(lam, i) /\ UNCHANGED load
Load == \E i \in 1..6 : load[i] = 0 /\ (\A j \in i..6 : load[j] = 0) /\ \E v \in {-3, 2} : load' = [load EXCEPT ![i] = v] /\ UNCHANGED lam
Next == Grow \/ Load

pl == TLCEval([i \in 1..Len(lam) |-> Pal[lam[i]]])
N == TLCEval([i \in 1..6 |-> FInt(load[i])])
Eps == FTenTo(30)
ByLoads ==
    LET z == Heights(pl)  e0 == MidStrain(pl, N)
        eps == TLCEval([r \in 1..NRows(pl) |-> StrainAt(e0, ZOf(z, r))])
        sig == TLCEval([r \in 1..NRows(pl) |-> StressIn(pl[PlyOf(r)], eps[r])])
        e12 == TLCEval([r \in 1..NRows(pl) |-> ToMatStrain(pl[PlyOf(r)], eps[r])])
        s12 == TLCEval([r \in 1..NRows(pl) |-> ToMatStress(pl[PlyOf(r)], sig[r])])
    IN /\ VecNear(Resultants(pl, z, LAMBDA r : sig[r]), N, Eps, FOne)
       /\ \A r \in 1..NRows(pl) :
            /\ VecNear(MatVec(QMat(pl[PlyOf(r)].q), e12[r]), s12[r], Eps, FInt(100))
            /\ FNear(Dot(eps[r], sig[r]), Dot(e12[r], s12[r]), Eps, FInt(100))
            /\ \A k \in 1..5 : LET al == FInt(5)  act == Acting(s12[r])[k]  m == Margin(al, act)
                               IN (m # PInf /\ m[1] = -1) = FLt(al, act)
=============================================================================
