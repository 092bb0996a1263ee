---------------------------- MODULE Conf_Material --------------------------
EXTENDS TraceBase, Material

OMat(e) == IF e.kind = "o" THEN Ortho(e.e1, e.e2, e.v12, e.g12) ELSE Iso(e.e1, e.v12, e.g12)

Judge(e) ==
    IF e.err # "" THEN {"built_and_readable"} ELSE
    LET m == OMat(e)
        q == Stiff(m)
        s == FMax(FMax(q[1], q[3]), q[4])
        I3 == MatMul(e.Q, Compliance(m))
        cond == FMul(s, FMax(FMax(FDiv(FOne, m.e1), FDiv(FOne, m.e2)), FDiv(FOne, m.g12)))
    IN Clause("shape", Len(e.Q) = 3 /\ \A i \in 1..3 : Len(e.Q[i]) = 3)
       \cup Clause("inverse_of_compliance", MatNear(I3, IdMat(3), TolTight, cond))
       \cup Clause("stiffness", \A i, j \in 1..3 :
                      FNear(e.Q[i][j], QMat(q)[i][j], TolTight, FAdd(QMat(q)[i][j], FMul(FTenTo(6), q[3]))))
       \cup (IF e.kind = "o"
             THEN Clause("minor_poisson", FNear(e.v21, V21(m), TolTight, V21(m)))
                  \cup Clause("invariants", VecNear(e.U, Invariants(q), TolTight, s))
                  \cup Clause("invariants_rotate", \A k \in 1..Len(e.cs) :
                                MatNear(QBarU(e.U, FCosSinDeg(e.cs[k])), QBar(q, FCosSinDeg(e.cs[k])), TolTight, s))
             ELSE Clause("isotropic_same_as_orthotropic",
                         \A i, j \in 1..3 : FNear(e.Q[i][j], e.Qo[i][j], FTenTo(12), s)))

Init == TraceInit
Next == Consume(Judge) 
=============================================================================
