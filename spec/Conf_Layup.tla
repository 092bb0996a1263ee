----------------------------- MODULE Conf_Layup -----------------------------
EXTENDS TraceBase, Layup

Plies(e) == TLCEval([i \in 1..Len(e.plies) |->
              LET p == e.plies[i] IN MkPly(Ortho(p[1], p[2], p[3], p[4]), p[5], p[6])])

Laminate(e) ==
    LET pl == Plies(e)  n == Len(pl)
        A == AMat(pl)  B == BMat(pl)  D == DMat(pl)  h == Thick(pl)  z == Heights(pl)
        sa == MatMaxAbs(A)  sd == MatMaxAbs(D)
    IN Clause("A_integral", MatNear(e.A, A, TolTight, sa))
       \cup Clause("B_integral", MatNear(e.B, B, TolTight, FMul(h, sa)))
       \cup Clause("D_integral", MatNear(e.D, D, TolTight, sd))
       \cup Clause("ABD_blocks", e.ABD = ABD(e.A, e.B, e.D))
       \cup Clause("interfaces", VecNear(e.z, z, TolTight, h))
       \cup Clause("ply_stiffness", Len(e.Qk) = n /\ \A i \in 1..n :
                     LET q == QBar(pl[i].q, pl[i].cs) IN MatNear(e.Qk[i], q, TolTight, MatMaxAbs(q)))
       \cup Clause("ply_transforms", Len(e.Tk) = n /\ \A i \in 1..n :
                     /\ MatNear(e.Tk[i][1], TStress(pl[i].cs), TolTight, FOne)
                     /\ MatNear(e.Tk[i][2], TStrain(pl[i].cs), TolTight, FOne))

Params(e) ==
    LET pl == Plies(e)  q == pl[1].q  h == Thick(pl) IN
    Clause("xiA", VecNear(e.xiA, XiA(pl), TolTight, FOne))
    \cup Clause("xiD", VecNear(e.xiD, XiD(pl), TolTight, FOne))
    \cup Clause("feasible", XiFeasible(e.xiA, TolTight) /\ XiFeasible(e.xiD, TolTight))
    \cup (IF Has(e, "twin")
          THEN Clause("same_A_from_own_parameters", MatNear(e.twin.A, e.A, TolTight, MatMaxAbs(e.A)))
               \cup Clause("same_D_from_own_parameters", MatNear(e.twin.D, e.D, TolTight, MatMaxAbs(e.D)))
          ELSE {})

FromPar(e) ==
    LET q == Stiff(Ortho(e.mat[1], e.mat[2], e.mat[3], e.mat[4]))
        D == DFromXi(q, e.xd, e.T)
        A == AFromXi(q, e.xa, e.T)
        sq == FMax(FMax(q[1], q[3]), q[4])
        sa == FMul(e.T, sq)  sd == FMul(FCube(e.T), sq)
        Z == ZeroMat(3, 3)
    IN Clause("D_from_parameters", MatNear(e.D, D, TolTight, sd))
       \cup Clause("xiD_reported", e.xiD = e.xd)
       \cup Clause("no_coupling", e.B = Z)
       \cup (IF e.only THEN {}
             ELSE Clause("A_from_parameters", MatNear(e.A, A, TolTight, sa))
                  \cup Clause("xiA_reported", e.xiA = e.xa)
                  \cup Clause("ABD_blocks", e.ABD = ABD(e.A, Z, e.D)))

Judge(e) == IF e.err # "" THEN {"built_and_readable"}
            ELSE CASE e.ev = "lam" -> Laminate(e)
                   [] e.ev = "xi" -> Params(e)
                   [] e.ev = "lp" -> FromPar(e)
Init == TraceInit
Next == Consume(Judge)
=============================================================================
