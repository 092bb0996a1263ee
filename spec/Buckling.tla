------------------------------- MODULE Buckling -----------------------------
(***************************************************************************)
(* Linear buckling.  A load factor mu is critical when K + mu KG is        *)
(* singular; K is positive definite, so the number of positive critical    *)
(* factors below mu is the number of negative eigenvalues of K + mu KG,    *)
(* which Gauss elimination shows as negative pivots (Sylvester).  A claim  *)
(* "the j-th factor is r" is therefore settled by two counts.              *)
(***************************************************************************)
EXTENDS Plate

Pencil(K, KG, mu) == MatOf(Len(K), Len(K), LAMBDA i, j : FAdd(K[i][j], FMul(mu, KG[i][j])))
Below(K, KG, mu) == NegCount(Pencil(K, KG, mu))
\* the j-th positive factor lies within r (1 +- delta)
AtLeast(K, KG, j, r) == Below(K, KG, r) <= j - 1
AtMost(K, KG, j, r)  == Below(K, KG, r) >= j
IsFactor(K, KG, j, r, delta) ==
    /\ AtLeast(K, KG, j, FSub(r, FMul(r, delta)))
    /\ AtMost(K, KG, j, FAdd(r, FMul(r, delta)))
\* magnitude of the rows of K c, without cancellation
AbsRow(row, c) == FoldLeft(LAMBDA acc, i : FAdd(acc, FAbs(FMul(row[i], c[i]))), FZero, Idx(Len(c)))
AbsProd(K, c) == Vec(Len(c), LAMBDA i : AbsRow(K[i], c))
=============================================================================
