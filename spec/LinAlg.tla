------------------------------- MODULE LinAlg -------------------------------
(* Vectors and matrices of fixed-point reals, as tuples and tuples of rows. *)
EXTENDS Fx, FiniteSets

\* F(val), with val computed once (operator arguments may be computed at every use)
Bind(val, F(_)) == CHOOSE r \in {F(x) : x \in {val}} : TRUE

Vec(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
MatOf(r, c, F(_, _)) == TLCEval([i \in 1..r |-> [j \in 1..c |-> F(i, j)]])
Rows(A) == Len(A)
Cols(A) == Len(A[1])
ZeroMat(r, c) == MatOf(r, c, LAMBDA i, j : FZero)

Idx(n) == [i \in 1..n |-> i]
Dot(u, v) == FoldLeft(LAMBDA acc, i : FAdd(acc, FMul(u[i], v[i])), FZero, Idx(Len(u)))
MatVec(A, v) == Vec(Len(A), LAMBDA i : Dot(A[i], v))
Transpose(A) == MatOf(Cols(A), Rows(A), LAMBDA i, j : A[j][i])
MatMul(A, B) == LET Bt == Transpose(B) IN MatOf(Rows(A), Cols(B), LAMBDA i, j : Dot(A[i], Bt[j]))
MatAdd(A, B) == MatOf(Rows(A), Cols(A), LAMBDA i, j : FAdd(A[i][j], B[i][j]))
MatSub(A, B) == MatOf(Rows(A), Cols(A), LAMBDA i, j : FSub(A[i][j], B[i][j]))
MatScale(s, A) == MatOf(Rows(A), Cols(A), LAMBDA i, j : FMul(s, A[i][j]))
MatMaxAbs(A) == FoldLeft(LAMBDA acc, r : FMax(acc, FMaxAbs(r)), FZero, A)
IdMat(n) == MatOf(n, n, LAMBDA i, j : IF i = j THEN FOne ELSE FZero)

\* Entrywise |obs - val| <= tol * scale, shapes included.
\* (a value bound by a quantifier is computed once, an operator argument maybe often)
Within(obs, val, bound) == IsFx(obs) /\ FLe(FAbs(FSub(obs, val)), bound)
VecNear(obs, val, tol, scale) ==
    \A v \in {val} : \A bound \in {FMul(tol, FAbs(scale))} :
       /\ Len(obs) = Len(v)
       /\ \A i \in 1..Len(v) : Within(obs[i], v[i], bound)
MatNear(obs, val, tol, scale) ==
    \A v \in {val} : \A bound \in {FMul(tol, FAbs(scale))} :
       /\ Len(obs) = Len(v)
       /\ \A i \in 1..Len(v) : /\ Len(obs[i]) = Len(v[i])
                               /\ \A j \in 1..Len(v[i]) : Within(obs[i][j], v[i][j], bound)
IsSymmetric(A, tol) ==
    LET s == MatMaxAbs(A) IN
    \A i \in 1..Len(A) : \A j \in 1..(i - 1) : FNear(A[i][j], A[j][i], tol, s)

----------------------------------------------------------------------------
(* Linear systems by Gauss-Jordan elimination with partial pivoting, on the  *)
(* augmented matrix.                                                         *)
PivotRow(M, k) == CHOOSE p \in k..Len(M) :
                     \A r \in k..Len(M) : FLe(FAbs(M[r][k]), FAbs(M[p][k]))
SwapRows(M, i, j) == [M EXCEPT ![i] = M[j], ![j] = M[i]]
ElimStep(M0, k) ==
    LET M  == TLCEval(SwapRows(M0, k, PivotRow(M0, k)))
        pr == TLCEval([j \in 1..Len(M[k]) |-> FDiv(M[k][j], M[k][k])])
    IN TLCEval([i \in 1..Len(M) |->
          IF i = k THEN pr
          ELSE LET f == M[i][k] IN
               IF f[1] = 0 THEN M[i]
               ELSE [j \in 1..Len(M[i]) |-> IF j < k THEN M[i][j] ELSE FSub(M[i][j], FMul(f, pr[j]))]])
GaussJordan(M) == FoldLeft(LAMBDA acc, k : ElimStep(acc, k), M, Idx(Len(M)))
Solve(A, b) == LET n == Len(A)
                   R == GaussJordan(TLCEval([i \in 1..n |-> Append(A[i], b[i])]))
               IN Vec(n, LAMBDA i : R[i][n + 1])

----------------------------------------------------------------------------
(* Sylvester: the number of negative eigenvalues of a symmetric matrix is    *)
(* the number of negative pivots of symmetric Gauss elimination (no pivot    *)
(* vanishing).  Only the upper triangle is kept: row k of the working matrix *)
(* holds columns k..n, as a tuple of length n-k+1.                           *)
UpperOf(A) == TLCEval([i \in 1..Len(A) |-> [j \in 1..(Len(A) - i + 1) |-> A[i][i + j - 1]]])

SchurStep(U) ==               \* eliminates the first row of an upper triangle
    LET r == U[1]
        f == TLCEval([i \in 2..Len(r) |-> FDiv(r[i], r[1])])
    IN TLCEval([i \in 1..(Len(U) - 1) |->
          [j \in 1..(Len(U) - i) |-> FSub(U[i + 1][j], FMul(f[i + 1], r[i + j]))]])

\* State <<remaining upper triangle, negative pivots, zero pivots>>
PivotScan(A) ==
    FoldLeft(LAMBDA st, k :
                LET p == st[1][1][1] IN
                IF p[1] = 0 THEN <<st[1], st[2], st[3] + 1>>
                ELSE <<IF Len(st[1]) = 1 THEN st[1] ELSE SchurStep(st[1]),
                       st[2] + (IF p[1] < 0 THEN 1 ELSE 0), st[3]>>,
             <<UpperOf(A), 0, 0>>, Idx(Len(A)))
NegCount(A) == PivotScan(A)[2]
IsPosDef(A) == LET s == PivotScan(A) IN s[2] = 0 /\ s[3] = 0
=============================================================================
