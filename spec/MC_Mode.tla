------------------------------- MODULE MC_Mode ------------------------------
(***************************************************************************)
(* (1) sessions of analyses and drawings of one plate: the mode drawn is   *)
(* always held; (2) along the grid the drawn surface keeps every edge      *)
(* restraint, whatever the coefficients (one unit coefficient at a time),  *)
(* and a grid turned with the plate draws the turned surface.              *)
(***************************************************************************)
EXTENDS Mode
CONSTANT Size
VARIABLES edges, pos, held, drawn
vars == <<edges, pos, held, drawn>>
K == Size * Size
EdgeKinds == {{}, {"TZ"}, {"TZ", "RZ"}, {"RZ"}}
Init == /\ LoadShapes
        /\ edges \in [1..4 -> EdgeKinds] /\ pos = 0 /\ held = 0 /\ drawn = <<>>
Analyse == \E w \in {1, 5} : held' = AfterAnalysis(K, w) /\ UNCHANGED <<edges, pos, drawn>>
Draw == /\ Len(drawn) < 2
        /\ held' = AfterPlot(K, held)
        /\ \E j \in 1..AfterPlot(K, held) : drawn' = Append(drawn, <<j, held'>>)
        /\ pos' = pos + 1
        /\ UNCHANGED edges
Next == Analyse \/ Draw
ModeIsHeld == \A i \in 1..Len(drawn) : drawn[i][1] >= 1 /\ drawn[i][1] <= drawn[i][2] /\ drawn[i][2] <= K - 2
X == Kept(Size, edges[1], edges[2], "w")
Y == Kept(Size, edges[3], edges[4], "w")
Unit(r) == [i \in 1..K |-> IF i = r THEN FOne ELSE FZero]
EdgesKept == pos = 0 /\ held = 0 => \A r \in 1..K : \A t \in {FNeg(FOne), FRat(1, 3), FOne} :
    \A FX \in {ValuesAt(X, t)} : \A FY \in {ValuesAt(Y, t)} :
      /\ ("TZ" \in edges[1] => Deflection(ValuesAt(X, FNeg(FOne)), FY, Unit(r))[1] = FZero)
      /\ ("TZ" \in edges[2] => Deflection(ValuesAt(X, FOne), FY, Unit(r))[1] = FZero)
      /\ ("TZ" \in edges[3] => Deflection(FX, ValuesAt(Y, FNeg(FOne)), Unit(r))[1] = FZero)
      /\ ("TZ" \in edges[4] => Deflection(FX, ValuesAt(Y, FOne), Unit(r))[1] = FZero)
SurfaceIsPointwise == pos = 0 /\ held = 0 =>
    \A GX \in {<<ValuesAt(X, FRat(-1, 2)), ValuesAt(X, FOne)>>} : \A GY \in {<<ValuesAt(Y, FRat(1, 3)), ValuesAt(Y, FZero)>>} :
    \A c \in {[i \in 1..K |-> FRat(((i * 7) % 5) - 2, 3)]} : \A S \in {Surface(GX, GY, c)} :
      \A q \in 1..2 : \A r \in 1..2 : FLe(FAbs(FSub(S[q][r][1], Deflection(GX[q], GY[r], c)[1])), FTenTo(30))
\* the turned plate (x and y exchanged) carries coefficient (i,k) at (k,i)
Turned(r) == ((r - 1) % Size) * Size + (r - 1) \div Size + 1
TurnedAlike == pos = 0 /\ held = 0 => \A r \in 1..K : \A s \in {FRat(-1, 2)} : \A t \in {FRat(1, 5)} :
    Deflection(ValuesAt(X, s), ValuesAt(Y, t), Unit(r))[1] = Deflection(ValuesAt(Y, t), ValuesAt(X, s), Unit(Turned(r)))[1]
=============================================================================
