------------------------------- MODULE MC_Plate -----------------------------
(***************************************************************************)
(* Laws of the plate energies.  A state is a laminate stiffness (one unit  *)
(* pair of entries at a time), a displacement field given by a monomial in *)
(* x and y per component, and a plate size.  The energy of the field       *)
(* through the Hessian must be the elementary integral of the polynomial.  *)
(***************************************************************************)
EXTENDS Plate
CONSTANTS Deg, Sizes, Others
VARIABLES r, s, mon, other, ab

Free == <<"edges", <<"word", "free">>, <<"word", "free">>, <<"word", "free">>, <<"word", "free">>>>
AllSizes == {<<2, 2>>, <<3, 5>>, <<7, 2>>}
OneSize == {<<3, 5>>}
Few == {<<"u", 1, 2>>, <<"v", 2, 1>>, <<"w", 2, 3>>}
Many == {<<f, 1, 1>> : f \in Fields} \cup {<<f, 2, 0>> : f \in Fields} \cup {<<f, 0, 3>> : f \in Fields} \cup Few
\* a monomial: <<field, power of x, power of y>>
Monos == {<<f, p, q>> : f \in Fields, p \in 0..Deg, q \in 0..Deg}
Init == /\ LoadPlate /\ ab \in Sizes /\ r \in 1..6 /\ s \in r..6 /\ mon = <<"w", 0, 0>> /\ other = <<"w", 0, 0>>
Next == mon = <<"w", 0, 0>> /\ mon' \in Monos /\ other' \in Others /\ UNCHANGED <<r, s, ab>>

Unit == MatOf(6, 6, LAMBDA i, j : IF (i = r /\ j = s) \/ (i = s /\ j = r) THEN FOne ELSE FZero)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
\* x^p on [0, h] in the four end functions: end values and twice the end slopes in xi
Coefs(p, h) == << IF p = 0 THEN 1 ELSE 0, IF p = 1 THEN h ELSE 0, Pow(h, p), IF p = 0 THEN 0 ELSE p * Pow(h, p) >>
FieldCoefs(m) == [k \in 1..16 |-> FInt(Coefs(m[2], ab[1])[(k - 1) \div 4 + 1] * Coefs(m[3], ab[2])[((k - 1) % 4) + 1])]
\* strain rows of a monomial field: set of <<row, factor, power of x, power of y>>
D1(p) == IF p = 0 THEN 0 ELSE p
D2(p) == IF p <= 1 THEN 0 ELSE p * (p - 1)
Down(p, k) == IF p < k THEN 0 ELSE p - k
Strains(m) == LET p == m[2]  q == m[3] IN
    CASE m[1] = "u" -> << <<1, D1(p), Down(p, 1), q>>, <<3, D1(q), p, Down(q, 1)>> >>
      [] m[1] = "v" -> << <<2, D1(q), p, Down(q, 1)>>, <<3, D1(p), Down(p, 1), q>> >>
      [] m[1] = "w" -> << <<4, -D2(p), Down(p, 2), q>>, <<5, -D2(q), p, Down(q, 2)>>, <<6, -2 * D1(p) * D1(q), Down(p, 1), Down(q, 1)>> >>
Direct(C, m, o) == FSum([k \in 1..(Len(Strains(m)) * Len(Strains(o))) |->
    LET S == Strains(m)[(k - 1) \div Len(Strains(o)) + 1]  T == Strains(o)[((k - 1) % Len(Strains(o))) + 1]
        px == S[3] + T[3] + 1  py == S[4] + T[4] + 1
    IN FMul(C[S[1]][T[1]], FMulI(FMulI(FRat(S[2] * T[2], px * py), Pow(ab[1], px)), Pow(ab[2], py)))])
A_ == FInt(ab[1])
B_ == FInt(ab[2])
Hess(m, o) == Values(StiffBlock(Free, 4, 4, m[1], o[1], Unit, FZero, A_, B_))
PatchTest == FNear(Dot(FieldCoefs(mon), MatVec(Hess(mon, other), FieldCoefs(other))), Direct(Unit, mon, other), FTenTo(20), FInt(1000000))
\* work of the loads
Work(N, m, o) == LET p == m[2] + o[2]  q == m[3] + o[3]
    t(c, i, j) == IF c = 0 THEN FZero ELSE FMulI(FMulI(FRat(c, (i + 1) * (j + 1)), Pow(ab[1], i + 1)), Pow(ab[2], j + 1))
    IN FSum(<<FMul(N[1], t(m[2] * o[2], Down(p, 2), q)), FMul(N[2], t(m[3] * o[3], p, Down(q, 2))),
              FMul(N[3], FAdd(t(m[2] * o[3], Down(p, 1), Down(q, 1)), t(m[3] * o[2], Down(p, 1), Down(q, 1))))>>)
Loads == IF r = 1 /\ s <= 3 THEN <<IF s = 1 THEN FOne ELSE FZero, IF s = 2 THEN FOne ELSE FZero, IF s = 3 THEN FOne ELSE FZero>> ELSE <<>>
WorkTest == (Loads # <<>> /\ mon[1] = "w" /\ other[1] = "w") =>
    FNear(Dot(FieldCoefs(mon), MatVec(Values(LoadBlock(Free, 4, 4, Loads, A_, B_)), FieldCoefs(other))), Work(Loads, mon, other), FTenTo(20), FInt(1000000))
\* the Hessian is symmetric
Symmetric == mon[2] # mon[3] \/ LET H == Hess(mon, other)  G == Hess(other, mon) IN MatNear(Transpose(G), H, FTenTo(25), FOne)
=============================================================================
