------------------------------- MODULE Bardell ------------------------------
(***************************************************************************)
(* The hierarchical polynomial functions of the plate series on [-1, 1]:   *)
(* four Hermite cubics (value and slope at -1, value and slope at +1) and  *)
(* internal functions f_i, i >= 4, of degree i, which vanish with their    *)
(* slope at both ends and whose second derivative is the Legendre          *)
(* polynomial of degree i-2.  A polynomial is the tuple of its             *)
(* coefficients, lowest power first.                                       *)
(***************************************************************************)
EXTENDS LinAlg

MaxIndex == 29                    \* the series is supported up to this index

Q8(s) == TLCEval([i \in 1..4 |-> FRat(s[i], 8)])
\* c_0(r), the leading coefficient for r = i+1: (2r-7)!! / (r-1)!
RECURSIVE Lead(_)
Lead(r) == IF r = 5 THEN FRat(1, 8)
           ELSE TLCEval(FDivI(FMulI(Lead(r - 1), 2 * r - 7), r - 1))
\* coefficients of f_i, i >= 4: power r-1-2n gets c_n
RECURSIVE Inner(_, _)
Inner(r, n) == IF n = 0 THEN Lead(r)
               ELSE TLCEval(FNeg(FDivI(FDivI(FMulI(FMulI(Inner(r, n - 1), r - 2 * n + 1), r - 2 * n), 2 * n), 2 * r - 2 * n - 5)))
Shape(i) == CASE i = 0 -> Q8(<<4, -6, 0, 2>>)
              [] i = 1 -> Q8(<<1, -1, -1, 1>>)
              [] i = 2 -> Q8(<<4, 6, 0, -2>>)
              [] i = 3 -> Q8(<<-1, -1, 1, 1>>)
              [] OTHER -> LET r == i + 1 IN
                          TLCEval([p \in 1..r |-> IF (r - p) % 2 = 1 THEN FZero ELSE Inner(r, (r - p) \div 2)])

Deriv(c) == TLCEval([p \in 1..(Len(c) - 1) |-> FMulI(c[p + 1], p)])
PolyAt(c, x) == FoldLeft(LAMBDA acc, p : FAdd(FMul(acc, x), c[Len(c) + 1 - p]), FZero, Idx(Len(c)))

\* <<power, coefficient, magnitude>> of the non-zero terms
Terms(c) == SelectSeq(TLCEval([p \in 1..Len(c) |-> <<p - 1, c[p], FAbs(c[p])>>]), LAMBDA t : t[2][1] # 0)
AllTerms == TLCEval([i \in 0..MaxIndex |->
                LET f == Shape(i)  d == Deriv(f) IN <<Terms(f), Terms(d), Terms(Deriv(d))>>])

\* TLC registers 29 and 30 keep the tables of functions and of the integrals of
\* the first eight, so that they are computed once: every module that uses them
\* starts with LoadShapes.
ShapeTerms == TLCGet(29)

(***************************************************************************)
(* <<integral over [-1,1] of f_i^(p) f_k^(q), sum of the magnitudes of the *)
(* monomial contributions>>.  The second number measures how much of the   *)
(* integral is lost when it is computed in double precision.               *)
(***************************************************************************)
IntegralOf(p, q, i, k) ==
    LET S == ShapeTerms[i][p + 1]  T == ShapeTerms[k][q + 1] IN
    FoldLeft(LAMBDA acc, s :
       FoldLeft(LAMBDA ac, t :
           IF (s[1] + t[1]) % 2 = 1 THEN ac
           ELSE LET m == TLCEval(FDivI(FMulI(FMul(s[3], t[3]), 2), s[1] + t[1] + 1))
                IN <<IF s[2][1] * t[2][1] > 0 THEN FAdd(ac[1], m) ELSE FSub(ac[1], m), FAdd(ac[2], m)>>,
           acc, T), <<FZero, FZero>>, S)
Low == 7
LoadShapes == /\ TLCSet(29, AllTerms)
              /\ TLCSet(30, TLCEval([p \in 0..2 |-> [q \in 0..2 |-> [i \in 0..Low |-> [k \in 0..Low |->
                                        TLCEval(IntegralOf(p, q, i, k))]]]]))
Integral(p, q, i, k) == IF i <= Low /\ k <= Low THEN TLCGet(30)[p][q][i][k] ELSE IntegralOf(p, q, i, k)

\* what double-precision summation may lose
Lost(I) == BDiv(I[2], BShl(BOf(4), 3))            \* 2^-47 of the magnitudes
=============================================================================
