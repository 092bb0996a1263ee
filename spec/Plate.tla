-------------------------------- MODULE Plate -------------------------------
(***************************************************************************)
(* Stiffness and geometric matrices of a rectangular plate, as Hessians of *)
(* its energies over products of series functions.                         *)
(*                                                                         *)
(* Strain energy: 1/2 * integral over the plate of e' C e, where C is the  *)
(* laminate's ABD matrix and e collects the membrane strains u,x  v,y      *)
(* u,y + v,x and the curvatures -w,xx  -w,yy  -2 w,xy.  Load work:         *)
(* 1/2 * integral of Nxx w,x^2 + 2 Nxy w,x w,y + Nyy w,y^2.                *)
(* With xi = 2x/a - 1 a derivative along x brings a factor 2/a, and the    *)
(* area element is ab/4.                                                   *)
(***************************************************************************)
EXTENDS Bardell, Supports

LoadPlate == LoadShapes /\ TLCSet(31, <<<<>>, <<>>>>)

\* how a field enters the strains: <<row of C, factor, derivatives in x, in y>>
StrainTerms(f, a, b) ==
    LET ax == FDiv(FInt(2), a)  by == FDiv(FInt(2), b) IN
    CASE f = "u" -> << <<1, ax, 1, 0>>, <<3, by, 0, 1>> >>
      [] f = "v" -> << <<2, by, 0, 1>>, <<3, ax, 1, 0>> >>
      [] f = "w" -> << <<4, FNeg(FSq(ax)), 2, 0>>, <<5, FNeg(FSq(by)), 0, 2>>,
                       <<6, FNeg(FMulI(FMul(ax, by), 2)), 1, 1>> >>
SlopeTerms(a, b) == << <<1, FDiv(FInt(2), a), 1, 0>>, <<2, FDiv(FInt(2), b), 0, 1>> >>

\* Bilinear form: sequence of <<factor, p, q, p2, q2, noise>> (derivative orders
\* in x and y of the first and of the second function; noise: what rounding of
\* the stiffness C, known to be about sc, may do to the factor)
Form(S, T, C, sc(_, _), a, b) ==
    LET area == FDivI(FMul(a, b), 4)
        one(s, t) == LET g == TLCEval(FMul(area, FMul(s[2], t[2]))) IN
                     <<FMul(C[s[1]][t[1]], g), s[3], s[4], t[3], t[4],
                       TLCEval(BDiv(FMul(FAbs(g), sc(s[1], t[1])), BShl(BOf(8192), 2)))>>
    IN SelectSeq(TLCEval([k \in 1..(Len(S) * Len(T)) |->
                   one(S[(k - 1) \div Len(T) + 1], T[((k - 1) % Len(T)) + 1])]),
                 LAMBDA x : x[1][1] # 0 \/ x[6][1] # 0)

\* Integrals needed for index lists I and K: tab[p+1][q+1][pos in I][pos in K]
\* (register 31 remembers the last long table)
Cell(p, q, i, k) == LET v == TLCEval(Integral(p, q, i, k)) IN <<v[1], TLCEval(Lost(v)), FAbs(v[1])>>
NewIntTab(I, K) ==
    LET half == TLCEval([p \in 1..3 |-> [q \in 1..3 |-> IF q > p /\ I = K THEN <<>> ELSE
                   [i \in 1..Len(I) |-> [k \in 1..Len(K) |-> IF p = q /\ k > i /\ I = K THEN <<>> ELSE Cell(p - 1, q - 1, I[i], K[k])]]]])
    IN IF I # K THEN half
       ELSE TLCEval([p \in 1..3 |-> [q \in 1..3 |-> [i \in 1..Len(I) |-> [k \in 1..Len(I) |->
              IF q > p \/ (p = q /\ k > i) THEN half[q][p][k][i] ELSE half[p][q][i][k]]]]])
IntTab(I, K) ==
    IF Len(I) * Len(K) < 50 THEN NewIntTab(I, K)
    ELSE IF TLCGet(31)[1] = <<I, K>> THEN TLCGet(31)[2]
    ELSE LET t == NewIntTab(I, K) IN IF TLCSet(31, <<<<I, K>>, t>>) THEN t ELSE t

\* <<value, what double precision may lose of it>> of one entry
Entry(form, TX, TY, i, j, k, l) ==
    FoldLeft(LAMBDA acc, f :
        LET X == TX[f[2] + 1][f[4] + 1][i][k]
            Y == TY[f[3] + 1][f[5] + 1][j][l]
            g == FAbs(f[1])
            xy == TLCEval(FMul(X[3], Y[3]))
            lose == TLCEval(FAdd(FAdd(FMul(X[3], Y[2]), FMul(X[2], Y[3])), FAdd(FMul(X[2], Y[2]), BDiv(xy, BShl(BOf(1024), 2)))))
        IN <<FAdd(acc[1], FMul(f[1], FMul(X[1], Y[1]))), TLCEval(FAdd(acc[2], FAdd(FMul(g, lose), FMul(f[6], FAdd(xy, lose)))))>>,
        <<FZero, FZero>>, form)

\* A block of a matrix: rows over the pairs (I, J), columns over (K, L), y fastest
BlockOf(form, I, J, K, L, TX, TY) ==
    TLCEval([r \in 1..(Len(I) * Len(J)) |-> [c \in 1..(Len(K) * Len(L)) |->
        Entry(form, TX, TY, (r - 1) \div Len(J) + 1, ((r - 1) % Len(J)) + 1,
                            (c - 1) \div Len(L) + 1, ((c - 1) % Len(L)) + 1)]])
Block(form0, I0, J0, K0, L0) ==
    Bind(<<form0, I0, J0, K0, L0>>, LAMBDA t :
      IF t[1] = <<>> THEN TLCEval([r \in 1..(Len(t[2]) * Len(t[3])) |-> [c \in 1..(Len(t[4]) * Len(t[5])) |-> <<FZero, FZero>>]])
      ELSE Bind(<<IntTab(t[2], t[4]), IntTab(t[3], t[5])>>, LAMBDA tt : BlockOf(t[1], t[2], t[3], t[4], t[5], tt[1], tt[2])))

\* magnitude of the membrane, coupling and bending parts of C; coupling comes
\* from differences of terms of size (membrane stiffness) x (thickness h)
Part(C, r0, c0) == FMaxAbs([k \in 1..9 |-> C[r0 + (k - 1) \div 3 + 1][c0 + ((k - 1) % 3) + 1]])
StiffForm(f, g, C, h, a, b) ==
    LET mm == TLCEval(Part(C, 0, 0))  cc == TLCEval(FMax(Part(C, 0, 3), FMul(mm, h)))  bb == TLCEval(Part(C, 3, 3))
        sc(i, j) == IF i <= 3 /\ j <= 3 THEN mm ELSE IF i > 3 /\ j > 3 THEN bb ELSE cc
    IN Form(StrainTerms(f, a, b), StrainTerms(g, a, b), C, sc, a, b)
LoadForm(N, a, b) == Form(SlopeTerms(a, b), SlopeTerms(a, b), <<<<N[1], N[3]>>, <<N[3], N[2]>>>>,
                          LAMBDA i, j : FZero, a, b)

\* C from the laminate's three matrices, and from D alone (bending analysis)
FromABD(A, B, D) ==
    MatOf(6, 6, LAMBDA i, j : IF i <= 3 /\ j <= 3 THEN A[i][j] ELSE IF i <= 3 THEN B[i][j - 3]
                              ELSE IF j <= 3 THEN B[j][i - 3] ELSE D[i - 3][j - 3])
FromD(D) == MatOf(6, 6, LAMBDA i, j : IF i > 3 /\ j > 3 THEN D[i - 3][j - 3] ELSE FZero)
StiffBlock(c, m, n, f, g, C, h, a, b) ==
    Block(StiffForm(f, g, C, h, a, b), AlongX(c, m, f), AlongY(c, n, f), AlongX(c, m, g), AlongY(c, n, g))
LoadBlock(c, m, n, N, a, b) ==
    Block(LoadForm(N, a, b), AlongX(c, m, "w"), AlongY(c, n, "w"), AlongX(c, m, "w"), AlongY(c, n, "w"))
Values(M) == TLCEval([r \in 1..Len(M) |-> [k \in 1..Len(M[r]) |-> M[r][k][1]]])

\* An observed block agrees with a specified one, entry by entry
BlockNear(obs, M0) == \A M \in {M0} :
    /\ Len(obs) = Len(M)
    /\ \A r \in 1..Len(M) : /\ Len(obs[r]) = Len(M[r])
                            /\ \A k \in 1..Len(M[r]) :
                                  IsFx(obs[r][k]) /\ FLe(FAbs(FSub(obs[r][k], M[r][k][1])), M[r][k][2])
=============================================================================
