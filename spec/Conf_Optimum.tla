---------------------------- MODULE Conf_Optimum ----------------------------
(* Judges outcomes of the optimisers.  An event has a kind: max, min (one   *)
(* optimisation), twice (the same with all loads multiplied), warn, plot.   *)
EXTENDS TraceBase, Optimum

SlackOf == FRat(15, 100000)                    \* the optimisers allow 0.0001
Exact   == FTenTo(7)
Noticeable == FRat(2, 100)
PanelOf(e, T) == [mat |-> Ortho(e.mat[1], e.mat[2], e.mat[3], e.mat[4]), T |-> T, c |-> e.c, m |-> e.m, n |-> e.n, a |-> e.a, b |-> e.b]
Finite(s) == \A i \in 1..Len(s) : IsFx(s[i])
Close(x, y, tol) == IsFx(x) /\ IsFx(y) /\ FLe(FAbs(FSub(x, y)), FMul(tol, FAbs(y)))
Obeys(e) == e.maxiter < 0 \/ e.nit <= e.maxiter

JudgeMax(e) ==
    IF e.err # "" THEN {"answered"}
    ELSE Clause("iteration_limit_obeyed", Obeys(e)) \cup
    IF ~e.ok THEN Clause("succeeds", e.maxiter >= 0)
    ELSE IF Len(e.x) # 2 \/ ~Finite(e.x) \/ ~IsFx(e.fun) THEN {"numbers"}
    ELSE Clause("feasible", InRegion(e.region, e.x, SlackOf)) \cup
    IF e.fun[1] >= 0 THEN {"objective_is_the_factor"}
    ELSE Bind(<<Family(PanelOf(e, e.T)), GeoOf(PanelOf(e, e.T), UnitLoads(e.N))>>, LAMBDA FG :
         Clause("objective_is_the_factor", IsFactor(KAt(FG[1], e.x), FG[2], 1, FNeg(e.fun), Exact))
         \cup Clause("no_better_point", Reached(FG[1], FG[2], FMul(FNeg(e.fun), FAdd(FOne, Noticeable)), e.region) # "found"))

JudgeMin(e) ==
    IF e.err # "" THEN {"answered"}
    ELSE Clause("iteration_limit_obeyed", Obeys(e)) \cup
    IF ~e.ok THEN Clause("succeeds", e.maxiter >= 0)
    ELSE IF Len(e.x) # 3 \/ ~Finite(e.x) \/ ~IsFx(e.fun) THEN {"numbers"}
    ELSE IF e.x[1][1] <= 0 THEN {"feasible"}
    ELSE Clause("feasible", InRegion("triangle", <<e.x[2], e.x[3]>>, SlackOf))
    \cup Clause("objective_is_the_cube", Close(e.fun, FCube(e.x[1]), FTenTo(9)))
    \cup Bind(GeoOf(PanelOf(e, e.x[1]), e.N), LAMBDA G :
         Clause("carries_the_loads", Below(KAt(Family(PanelOf(e, e.x[1])), <<e.x[2], e.x[3]>>), G, FSub(FOne, FTenTo(3))) = 0)
         \cup Clause("none_thinner", Reached(Family(PanelOf(e, FMul(e.x[1], FSub(FOne, FRat(7, 1000))))), G, FOne, "triangle") # "found"))


IsCubeOf(r, g, tol) == Close(FCube(r), g, FMulI(tol, 3))
JudgeTwice(e) ==
    IF e.max1.err # e.max2.err \/ e.min1.err # e.min2.err THEN {"same_outcome"}
    ELSE (IF e.max1.err # "" THEN {} ELSE
          Clause("maximum_unchanged", e.max1.ok = e.max2.ok /\ Close(e.max2.fun, e.max1.fun, FTenTo(6)) /\
                 \A i \in 1..2 : FLe(FAbs(FSub(e.max1.x[i], e.max2.x[i])), FTenTo(3))))
    \cup (IF e.min1.err # "" \/ ~e.min1.ok \/ ~e.min2.ok \/ e.min1.x[1][1] <= 0 THEN {} ELSE
          Clause("thickness_scales", IsCubeOf(FDiv(e.min2.x[1], e.min1.x[1]), FInt(e.g), Noticeable)))

\* exactly the stated conditions
Unsuitable(N) == N[1][1] >= 0 /\ N[2][1] >= 0 /\ N[3][1] = 0
Large(N) == \E i \in 1..3 : FLt(FOne, FAbs(N[i]))
JudgeWarn(e) == Clause("unsuitable_loads_warning", e.unsuitable = Unsuitable(e.N))
           \cup Clause("normalisation_warning", e.large = Large(e.N))

\* ---- the drawing
Node(k, pts) == FSub(FRat(2 * k, pts - 1), FOne)
NodeOf(x, pts) == {k \in 0..(pts - 1) : FLe(FAbs(FSub(x, Node(k, pts))), FTenTo(9))}
\* fine drawings: that there is a number is checked everywhere, that it is the factor at every 19th node
Skipped(all, i) == all > 400 /\ i % 19 # 7
JudgePlot(e) ==
    IF e.err # "" THEN {"answered"}
    ELSE LET pts == e.pts
             all == Len(e.field)
             spot == [i \in 1..all |-> <<NodeOf(e.field[i][1], pts), NodeOf(e.field[i][2], pts)>>]
             onGrid == \A i \in 1..all : spot[i][1] # {} /\ spot[i][2] # {}
             lines == {i \in 1..Len(e.lines) : Len(e.lines[i]) > 1}
             marks == {i \in 1..Len(e.lines) : Len(e.lines[i]) = 1}
             rim == UNION {{e.lines[i][j] : j \in 1..Len(e.lines[i])} : i \in lines}
             gap == FAdd(FRat(2, pts - 1), FTenTo(9))
         IN Clause("grid_covers_the_square", e.fields = 1 /\ all = pts * pts /\ onGrid /\
                   Cardinality({spot[i] : i \in 1..all}) = pts * pts)
         \cup Clause("blank_where_infeasible", \A i \in 1..all :
                   FLe(FNeg(FTenTo(9)), Slack(e.region, <<e.field[i][1], e.field[i][2]>>)) \/ e.field[i][3] = NaN)
         \cup Bind(<<Family(PanelOf(e, e.T)), GeoOf(PanelOf(e, e.T), e.N)>>, LAMBDA FG :
              Clause("field_is_the_factor", \A i \in 1..all :
                   LET p == <<e.field[i][1], e.field[i][2]>> IN
                   \/ FLt(Slack(e.region, p), FTenTo(9)) /\ e.field[i][3] = NaN
                   \/ FLt(Slack(e.region, p), FNeg(FTenTo(9)))
                   \/ IsFx(e.field[i][3]) /\ e.field[i][3][1] > 0 /\ (Skipped(all, i) \/ IsFactor(KAt(FG[1], p), FG[2], 1, e.field[i][3], Exact))))
         \cup Clause("optimum_is_marked", Cardinality(marks) = 1 /\ \A i \in marks : \A k \in 1..2 :
                   IsFx(e.lines[i][1][k]) /\ FLe(FAbs(FSub(e.lines[i][1][k], e.x[k])), FTenTo(9)))
         \cup Clause("boundary_of_the_region",
                   /\ \A p \in rim : IsFx(p[1]) /\ IsFx(p[2]) /\ FLe(FAbs(Slack(e.region, p)), FTenTo(9))
                   /\ \A k \in {-1, 0, 1} : \E p \in rim : FLe(FAbs(FSub(p[1], FInt(k))), FTenTo(9))
                   /\ \A i \in lines : \A j \in 1..(Len(e.lines[i]) - 1) :
                         e.region = "triangle" \/ FLe(FAbs(FSub(e.lines[i][j + 1][1], e.lines[i][j][1])), gap))
         \cup Clause("result_unchanged", \A k \in 1..2 : FLe(FAbs(FSub(e.x[k], e.plain[k])), FTenTo(9)))

Judge(e) == CASE e.kind = "max" -> JudgeMax(e) [] e.kind = "min" -> JudgeMin(e) [] e.kind = "twice" -> JudgeTwice(e)
              [] e.kind = "warn" -> JudgeWarn(e) [] e.kind = "plot" -> JudgePlot(e)
Init == LoadPlate /\ TraceInit
Next == Consume(Judge)
=============================================================================
