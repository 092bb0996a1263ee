------------------------------ MODULE Material ------------------------------
(***************************************************************************)
(* Ply materials.  The plane-stress compliance of an orthotropic ply is    *)
(*   S = [1/E1 -v12/E1 0; -v12/E1 1/E2 0; 0 0 1/G12]                       *)
(* and its reduced stiffness is the inverse of S.  A ply material is a     *)
(* record [e1, e2, v12, g12] of fixed-point reals.                         *)
(***************************************************************************)
EXTENDS LinAlg

Ortho(e1, e2, v12, g12) == [e1 |-> e1, e2 |-> e2, v12 |-> v12, g12 |-> g12]
Iso(e, v, g) == Ortho(e, e, v, g)

V21(m) == FDiv(FMul(m.v12, m.e2), m.e1)

\* <<Q11, Q12, Q22, Q66>> in closed form
Stiff(m) ==
    LET r   == FDiv(m.e2, m.e1)
        den == FSub(FOne, FMul(FMul(m.v12, m.v12), r))
    IN TLCEval(<<FDiv(m.e1, den), FDiv(FMul(m.v12, m.e2), den), FDiv(m.e2, den), m.g12>>)

QMat(q) == <<<<q[1], q[2], FZero>>, <<q[2], q[3], FZero>>, <<FZero, FZero, q[4]>>>>

Compliance(m) ==
    LET s12 == FNeg(FDiv(m.v12, m.e1)) IN
    <<<<FDiv(FOne, m.e1), s12, FZero>>, <<s12, FDiv(FOne, m.e2), FZero>>,
      <<FZero, FZero, FDiv(FOne, m.g12)>>>>

\* Material invariants U1..U5 (Tsai-Pagano) of q = <<Q11,Q12,Q22,Q66>>
Invariants(q) ==
    LET a == q[1]  b == q[3]  c == q[2]  g == q[4]
        L(k1, k2, k3, k4, d) == FDivI(FAdd(FAdd(FMulI(a, k1), FMulI(b, k2)),
                                           FAdd(FMulI(c, k3), FMulI(g, k4))), d)
    IN <<L(3, 3, 2, 4, 8), L(1, -1, 0, 0, 2), L(1, 1, -2, -4, 8), L(1, 1, 6, -4, 8), L(1, 1, -2, 4, 8)>>

\* Stiffness of a ply turned by the angle with <<cos, sin>> = cs, in plate axes
QBar(q, cs) ==
    LET c == cs[1]  s == cs[2]
        c2 == FSq(c)  s2 == FSq(s)  sc == FMul(s, c)
        c4 == FSq(c2) s4 == FSq(s2) s2c2 == FMul(s2, c2)
        qa == FAdd(q[2], FMulI(q[4], 2))                    \* Q12 + 2 Q66
        qb == FSub(FSub(q[1], q[2]), FMulI(q[4], 2))        \* Q11 - Q12 - 2 Q66
        qc == FAdd(FSub(q[2], q[3]), FMulI(q[4], 2))        \* Q12 - Q22 + 2 Q66
        b11 == FAdd(FAdd(FMul(q[1], c4), FMul(q[3], s4)), FMulI(FMul(qa, s2c2), 2))
        b22 == FAdd(FAdd(FMul(q[1], s4), FMul(q[3], c4)), FMulI(FMul(qa, s2c2), 2))
        b12 == FAdd(FMul(FSub(FAdd(q[1], q[3]), FMulI(q[4], 4)), s2c2), FMul(q[2], FAdd(c4, s4)))
        b66 == FAdd(FMul(FSub(FAdd(q[1], q[3]), FMulI(FAdd(q[2], q[4]), 2)), s2c2), FMul(q[4], FAdd(c4, s4)))
        b16 == FMul(sc, FAdd(FMul(qb, c2), FMul(qc, s2)))
        b26 == FMul(sc, FAdd(FMul(qb, s2), FMul(qc, c2)))
    IN TLCEval(<<<<b11, b12, b16>>, <<b12, b22, b26>>, <<b16, b26, b66>>>>)

\* The same from the invariants and the doubled and quadrupled angle
QBarU(u, cs) ==
    LET c2 == FSub(FSq(cs[1]), FSq(cs[2]))  s2 == FMulI(FMul(cs[1], cs[2]), 2)
        c4 == FSub(FSq(c2), FSq(s2))        s4 == FMulI(FMul(c2, s2), 2)
        b11 == FAdd(u[1], FAdd(FMul(u[2], c2), FMul(u[3], c4)))
        b22 == FAdd(FSub(u[1], FMul(u[2], c2)), FMul(u[3], c4))
        b12 == FSub(u[4], FMul(u[3], c4))
        b66 == FSub(u[5], FMul(u[3], c4))
        b16 == FAdd(FDivI(FMul(u[2], s2), 2), FMul(u[3], s4))
        b26 == FSub(FDivI(FMul(u[2], s2), 2), FMul(u[3], s4))
    IN <<<<b11, b12, b16>>, <<b12, b22, b26>>, <<b16, b26, b66>>>>

\* Stress transformation to material axes, and the one for engineering strains
TStress(cs) ==
    LET c == cs[1]  s == cs[2]  c2 == FSq(c)  s2 == FSq(s)  sc == FMul(s, c) IN
    <<<<c2, s2, FMulI(sc, 2)>>, <<s2, c2, FMulI(sc, -2)>>, <<FNeg(sc), sc, FSub(c2, s2)>>>>
TStrain(cs) ==
    LET c == cs[1]  s == cs[2]  c2 == FSq(c)  s2 == FSq(s)  sc == FMul(s, c) IN
    <<<<c2, s2, sc>>, <<s2, c2, FNeg(sc)>>, <<FMulI(sc, -2), FMulI(sc, 2), FSub(c2, s2)>>>>
=============================================================================
