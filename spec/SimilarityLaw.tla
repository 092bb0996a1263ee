---------------------------- MODULE SimilarityLaw ---------------------------
EXTENDS Similarity, LinAlg
\* what a step multiplies every factor by
RECURSIVE IPow(_, _)
IPow(x, k) == IF k = 0 THEN FOne ELSE FMul(x, IPow(x, k - 1))
Ratio(s) == LET p == Power(s) IN
    IF p = 0 THEN FOne
    ELSE LET x == FDivI(FInt(s[2]), 1000)
             y == IPow(x, IF p < 0 THEN -p ELSE p)
         IN IF p > 0 THEN y ELSE FDiv(FOne, y)
\* numbers of a scaled plate
Prod(sc) == FoldLeft(LAMBDA acc, k : FDivI(FMulI(acc, k), 1000), FOne, sc)
=============================================================================
