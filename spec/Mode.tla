--------------------------------- MODULE Mode -------------------------------
(***************************************************************************)
(* Drawing a buckling mode.  The picture of mode j of a plate is the       *)
(* surface z = sum over the admissible pairs of c_p f_i(xi) f_k(eta) over  *)
(* a grid that covers the whole plate, with x = a (xi+1)/2 along the first *)
(* side and y = b (eta+1)/2 along the second one.  Drawing before any      *)
(* analysis runs the default one (five modes); drawing after one uses its  *)
(* modes.                                                                  *)
(***************************************************************************)
EXTENDS Buckling

\* the grid: gx * gy parameter points, ends included
GridPoint(g, k) == FAdd(FNeg(FOne), FDivI(FInt(2 * (k - 1)), g - 1))
\* values of the functions of an index list at one parameter: <<value, magnitude>>
AbsPoly(c, x) == FoldLeft(LAMBDA acc, p : FAdd(FMul(acc, x), FAbs(c[Len(c) + 1 - p])), FZero, Idx(Len(c)))
ValuesAt(I, x) == TLCEval([i \in 1..Len(I) |-> LET s == Shape(I[i]) IN <<PolyAt(s, x), AbsPoly(s, FAbs(x))>>])
\* <<deflection, magnitude of its monomials>>: FX, FY values along the two directions
Deflection(FX, FY, c) ==
    FoldLeft(LAMBDA acc, r :
        LET f == FX[(r - 1) \div Len(FY) + 1]  g == FY[((r - 1) % Len(FY)) + 1] IN
        <<FAdd(acc[1], FMul(c[r], FMul(f[1], g[1]))), FAdd(acc[2], FAbs(FMul(c[r], FMul(f[2], g[2]))))>>,
        <<FZero, FZero>>, Idx(Len(FX) * Len(FY)))

\* the same, for the whole grid: GridX[q] are the values at the q-th parameter
\* along x.  First the sums along x, then along y.
PartX(FX, len, c) == TLCEval([k \in 1..len |->
    FoldLeft(LAMBDA acc, i : LET v == c[(i - 1) * len + k] IN
                <<FAdd(acc[1], FMul(v, FX[i][1])), FAdd(acc[2], FAbs(FMul(v, FX[i][2])))>>, <<FZero, FZero>>, Idx(Len(FX)))])
PartY(P, FY) == FoldLeft(LAMBDA acc, k : <<FAdd(acc[1], FMul(P[k][1], FY[k][1])), FAdd(acc[2], FMul(P[k][2], FY[k][2]))>>,
                         <<FZero, FZero>>, Idx(Len(FY)))
Surface(GridX, GridY, c) ==
    Bind(TLCEval([q \in 1..Len(GridX) |-> PartX(GridX[q], Len(GridY[1]), c)]), LAMBDA P :
         TLCEval([q \in 1..Len(GridX) |-> [r \in 1..Len(GridY) |-> PartY(P[q], GridY[r])]]))

\* ---- the session: how many modes the plate holds
Held(k, want) == IF want < k - 2 THEN want ELSE k - 2
DefaultModes == 5
AfterAnalysis(k, want) == Held(k, want)
AfterPlot(k, held) == IF held = 0 THEN Held(k, DefaultModes) ELSE held
=============================================================================
