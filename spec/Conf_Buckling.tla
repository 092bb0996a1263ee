---------------------------- MODULE Conf_Buckling ---------------------------
EXTENDS TraceBase, Buckling

Delta == FDivI(FTenTo(7), 1)
Far == FInt(10000)
Positive(x) == IsFx(x) /\ x[1] > 0
\* a load factor by which some factor must have been passed, if there is any
LeastRayleigh(K, KG, far) ==
    LET q == {FDiv(K[i][i], FAbs(KG[i][i])) : i \in {i \in 1..Len(K) : KG[i][i][1] # 0}}
    IN IF \A x \in q : FLe(far, x) THEN far ELSE CHOOSE x \in q : \A y \in q : FLe(x, y)
Buckles(K, KG, far) == Below(K, KG, FMulI(LeastRayleigh(K, KG, far), 1000)) > 0
\* the size of a load factor for these loads on this plate; ten thousand times beyond it, a factor is
\* the rounding of a plate that does not buckle
Usual(e, K) == FDiv(MatMaxAbs(K), FMax(FAbs(e.N[3]), FMax(FMul(FAbs(e.N[1]), FDiv(e.b, e.a)), FMul(FAbs(e.N[2]), FDiv(e.a, e.b)))))
JudgeWith(e, K, KG) ==
    IF e.err # "" THEN Clause("answered", ~Buckles(K, KG, Usual(e, K)))
    ELSE
    LET k == e.m * e.n
        want == IF e.k < k - 2 THEN e.k ELSE k - 2
        v == e.vals
        p == Cardinality({i \in 1..Len(v) : Positive(v[i])})
        pos == SubSeq(v, 1, p)
        usual == Usual(e, K)
        near == {j \in 1..p : FLe(v[j], FMul(Far, v[1])) /\ FLe(v[j], FMul(Far, usual))}     \* beyond, double precision says nothing
        scan == IF near # {} THEN FMul(Far, v[1]) ELSE FMulI(LeastRayleigh(K, KG, usual), 1000)
        res(j) == LET c == [i \in 1..k |-> e.vecs[i][j]]
                      kc == FMaxAbs(AbsProd(K, c))
                      r == MatVec(Pencil(K, KG, v[j]), c)
                      rel == FMax(FOne, FDiv(v[j], v[1]))
                  IN FMaxAbs(c)[1] # 0 /\ FLe(FMaxAbs(r), FMul(FMul(FTenTo(6), rel), kc))
        shape == Len(v) = want /\ Len(e.vecs) = k /\ \A i \in 1..k : Len(e.vecs[i]) = want
        finite == \A i \in 1..Len(v) : IsFx(v[i])
    IN Clause("as_many_as_requested", shape)
       \cup (IF ~shape THEN {} ELSE
       Clause("positive_factors_first", \A i \in 1..p : Positive(v[i]))
       \cup Clause("ascending", \A i \in 1..(p - 1) : FLe(v[i], v[i + 1]))
       \cup (IF \E i \in 1..p : ~Positive(v[i]) THEN {} ELSE
             UNION {Clause("factor_" \o ToString(j), IsFactor(K, KG, j, v[j], FMul(Delta, FMax(FOne, FDiv(v[j], v[1]))))) : j \in near}
             \cup Clause("none_missing", (near # {} /\ p = want) \/ Below(K, KG, scan) <= (IF near = {} THEN 0 ELSE p))
             \cup Clause("modes_are_neutral", (\A i \in 1..k : \A j \in near : IsFx(e.vecs[i][j])) /\ \A j \in near : res(j))
             \cup Clause("modes_independent", near = {} \/
                    LET q == Cardinality(near)
                        C == [j \in 1..q |-> [i \in 1..k |-> e.vecs[i][j]]]
                        KC == [j \in 1..q |-> MatVec(K, C[j])]
                        G == MatOf(q, q, LAMBDA i, j : Dot(C[i], KC[j]))
                    IN (\A i \in 1..k : \A j \in near : IsFx(e.vecs[i][j])) =>
                       IsPosDef(MatOf(q, q, LAMBDA i, j : IF i = j THEN FSub(G[i][i], FMul(G[i][i], FTenTo(6))) ELSE G[i][j])))))
       \cup Clause("stored_on_the_plate", e.stored)
Judge(e) == IF ~Has(e, "D") THEN {"built"}
            ELSE UNION {JudgeWith(e, P[1], P[2]) : P \in       \* (a bound variable is evaluated once)
                   {<<Values(StiffBlock(e.c, e.m, e.n, "w", "w", FromD(e.D), e.h, e.a, e.b)),
                      Values(LoadBlock(e.c, e.m, e.n, e.N, e.a, e.b))>>}}
Init == LoadPlate /\ TraceInit
Next == Consume(Judge)
=============================================================================
