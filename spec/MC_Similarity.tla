--------------------------- MODULE MC_Similarity ----------------------------
(***************************************************************************)
(* The laws follow from the energies: for a family of plates and every     *)
(* step, the number of factors below mu before the step is the number      *)
(* below Ratio * mu after it (at least that number when the series grows). *)
(* Also: every change of axes undone by repeating it.                      *)
(***************************************************************************)
EXTENDS Buckling, SimilarityLaw
CONSTANTS Sizes, Depth
VARIABLES P, last, k
vars == <<P, last, k>>
Lay == INSTANCE Layup
Small == {<<2, 3>>}
Bigger == {<<2, 3>>, <<3, 3>>, <<4, 2>>}
Steps == {<<"moduli", 1700>>, <<"loads", 400>>, <<"thick", 1300>>, <<"dims", 800>>, <<"swap">>, <<"mirror_x">>, <<"mirror_y">>,
          <<"half_turn">>, <<"back_turn">>, <<"upside_down">>, <<"grow_m">>, <<"grow_n">>}
Mat1 == [kind |-> "o", e1 |-> 130000, e2 |-> 9000, v12 |-> 310, g12 |-> 5100]
Mat2 == [kind |-> "o", e1 |-> 40000, e2 |-> 25000, v12 |-> 120, g12 |-> 8000]
Lam == [mats |-> <<[m |-> Mat1, t |-> 150], [m |-> Mat2, t |-> 320]>>,
        lam |-> <<[k |-> 1, th |-> 3000], [k |-> 2, th |-> -1700], [k |-> 1, th |-> 9000]>>]
Configs == {<<"default">>, <<"edges", <<"word", "clamped">>, <<"list">>, <<"list", "TZ">>, <<"list", "RZ">>>>,
            <<"edges", <<"list", "TZ", "RZ">>, <<"word", "pinned">>, <<"word", "free">>, <<"word", "fixed">>>>}
Init == /\ LoadPlate /\ k = 0 /\ last = <<"none">>
        /\ P \in {Scaled([lam |-> Lam, a |-> 400, b |-> 250, c |-> c, style |-> "lower", m |-> z[1], n |-> z[2], N |-> <<-100, -30, 45>>])
                  : c \in Configs, z \in Sizes}
Next == /\ k < Depth /\ k' = k + 1
        /\ \E s \in Steps : Allowed(P, s) /\ last' = s /\ P' = Transform(P, s)

\* the physics of a description
MatF(m, e) == Lay!Ortho(FMulI(e, m.e1), FMulI(e, m.e2), FRat(m.v12, 1000), FMulI(e, m.g12))
Plies(p) == [i \in 1..Len(p.lam.lam) |-> LET w == p.lam.mats[p.lam.lam[i].k] IN
                Lay!MkPly(MatF(w.m, Prod(p.sE)), FMul(FRat(w.t, 1000), Prod(p.sT)), FRat(p.lam.lam[i].th, 100))]
KOf(p) == Values(StiffBlock(p.c, p.m, p.n, "w", "w", FromD(Lay!DMat(Plies(p))), FZero, FMulI(Prod(p.sA), p.a), FMulI(Prod(p.sA), p.b)))
GOf(p) == Values(LoadBlock(p.c, p.m, p.n, [i \in 1..3 |-> FMul(FRat(p.N[i], 10), Prod(p.sN))], FMulI(Prod(p.sA), p.a), FMulI(Prod(p.sA), p.b)))
Probe(K, G) == LET q == {FDiv(K[i][i], FAbs(G[i][i])) : i \in {i \in 1..Len(K) : G[i][i][1] # 0}} IN
               CHOOSE x \in q : \A y \in q : FLe(x, y)
Lawful == k < Depth => \A pair \in {<<KOf(P), GOf(P)>>} : \A r \in {Probe(pair[1], pair[2])} :
    \A s \in Steps : Allowed(P, s) =>
      \A next \in {<<KOf(Transform(P, s)), GOf(Transform(P, s))>>} :
      \A f \in {FRat(1, 3), FRat(101, 100), FRat(307, 100), FRat(203, 10)} :
        LET b == Below(pair[1], pair[2], FMul(r, f))
            a == Below(next[1], next[2], FMul(FMul(r, f), Ratio(s)))
        IN IF Refines(s) THEN a >= b ELSE a = b
Twice(s) == Transform(Transform(P, s), s)
\* a ply angle means a direction without sense
Undirected(p) == Turn(p, LAMBDA t : (t + 72000) % 18000)
Involutions == Twice(<<"swap">>) = P /\ Twice(<<"mirror_x">>) = P /\ Twice(<<"mirror_y">>) = P /\ Twice(<<"upside_down">>) = P
               /\ Transform(Transform(P, <<"half_turn">>), <<"back_turn">>) = P
               /\ Undirected(Transform(Transform(P, <<"swap">>), <<"mirror_x">>)) = Undirected(Transform(Transform(P, <<"mirror_y">>), <<"swap">>))
=============================================================================
