------------------------------ MODULE Conf_Mode -----------------------------
(* One event is one drawing: the surface passed to the renderer, and the    *)
(* modes the plate held before and after it.                                *)
EXTENDS TraceBase, Mode

Tol == FTenTo(9)
Pts(e) == 1..Len(e.X)
Close(p, q, scale) == FLe(FAbs(FSub(p, q)), FMul(Tol, scale))
Judge(e) ==
    IF e.err # "" THEN {"drawn"}
    ELSE
    LET k == e.m * e.n
        held == AfterPlot(k, e.before)
        cnt == Len(e.X)
        finite == \A i \in Pts(e) : IsFx(e.X[i]) /\ IsFx(e.Y[i]) /\ IsFx(e.Z[i])
        sized == cnt = e.gx * e.gy /\ Len(e.Y) = cnt /\ Len(e.Z) = cnt
        XI == AlongX(e.c, e.m, "w")
        YI == AlongY(e.c, e.n, "w")
        \* which grid line a coordinate lies on (0: none)
        line(x, g, side) == LET q == BDiv(FAdd(FMul(FDiv(x, side), FInt(g - 1)), FRat(1, 2)), FOne)
                                n == IF q = BZero THEN 0 ELSE IF Len(q) = 2 /\ q[1] = 1 /\ q[2] < g THEN q[2] ELSE -1
                            IN IF n >= 0 /\ FLe(FAbs(FSub(x, FDivI(FMulI(side, n), g - 1))), FMul(Tol, side)) THEN n + 1 ELSE 0
        cells == {<<q, r>> : q \in 1..e.gx, r \in 1..e.gy}
        E == Edges(e.c)
    IN Clause("one_surface", e.surfaces = 1)
       \cup Clause("shown", e.shown)
       \cup Clause("modes_held", e.after = held)
       \cup Clause("modes_kept", e.kept)
       \cup Clause("first_analysis_performed", e.analysed)
       \cup Clause("grid_size", sized)
       \cup (IF ~sized \/ ~finite THEN Clause("finite", finite) ELSE
       UNION {Clause("whole_plate", \A i \in Pts(e) : AT[i][1] # 0 /\ AT[i][2] # 0) \cup
         (IF \E i \in Pts(e) : AT[i][1] = 0 \/ AT[i][2] = 0 THEN {} ELSE
         UNION {Clause("every_grid_point_once", {AT[i] : i \in Pts(e)} = cells)
                \cup Clause("deflection", \A i \in Pts(e) : \A d \in {S[AT[i][1]][AT[i][2]]} :
                               FLe(FAbs(FSub(e.Z[i], d[1])), FMul(FTenTo(12), d[2])))
                \cup Clause("restrained_edges_stay", \A i \in Pts(e) :
                       (\/ "TZ" \in E[1] /\ AT[i][1] = 1
                        \/ "TZ" \in E[2] /\ AT[i][1] = e.gx
                        \/ "TZ" \in E[3] /\ AT[i][2] = 1
                        \/ "TZ" \in E[4] /\ AT[i][2] = e.gy)
                       => \A d \in {S[AT[i][1]][AT[i][2]]} : FLe(FAbs(e.Z[i]), FMul(FTenTo(12), d[2])))
                : S \in {Surface([q \in 1..e.gx |-> ValuesAt(XI, GridPoint(e.gx, q))],
                                 [r \in 1..e.gy |-> ValuesAt(YI, GridPoint(e.gy, r))], e.coef)}})
         : AT \in {TLCEval([i \in Pts(e) |-> <<line(e.X[i], e.gx, e.a), line(e.Y[i], e.gy, e.b)>>])}})
Init == LoadPlate /\ TraceInit
Next == Consume(Judge)
=============================================================================
