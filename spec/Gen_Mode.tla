------------------------------- MODULE Gen_Mode -----------------------------
(* A plate and a session of analyses, matrix computations and drawings.     *)
EXTENDS DrawPlate
CONSTANTS MaxSize, MaxPlies, Long   \* Long: long series on coarse grids, many modes drawn
VARIABLE n
Held(k, want) == IF want < k - 2 THEN want ELSE k - 2
Grid(d) == IF Chance(4) THEN Pick({2, 3}) ELSE Pick(2..9)
\* a drawing names a mode that is held at that point
Plot(k, held) == LET h == IF held = 0 THEN Held(k, 5) ELSE held IN
    <<[op |-> "plot", k |-> 0, nth |-> IF Chance(3) THEN h - 1 ELSE Pick(0..(h - 1)), gx |-> Grid(1), gy |-> Grid(2), plain |-> Chance(12)], h>>
Analyse(k) == \* one draw of the number of modes
    CHOOSE r \in {<<[op |-> "analyse", k |-> w, nth |-> 0, gx |-> 0, gy |-> 0, plain |-> FALSE], Held(k, w)>> : w \in {Pick({1, 2, 3, 5, 8, 99})}} : TRUE
Other(held) == <<[op |-> Pick({"D", "ABD", "neighbour"}), k |-> 0, nth |-> 0, gx |-> 0, gy |-> 0, plain |-> FALSE], held>>
RECURSIVE Steps(_, _, _)
Steps(k, len, held) ==
    IF len = 0 THEN <<Plot(k, held)[1]>>
    ELSE LET d == Pick(1..5) IN
         CHOOSE r \in {<<s[1]>> \o Steps(k, len - 1, s[2]) :
                s \in {CASE d <= 2 -> Plot(k, held) [] d = 3 -> Analyse(k) [] OTHER -> Other(held)}} : TRUE
Wide == Long /\ MaxSize >= 20                  \* as many functions in both directions as affordable
Size(d) == IF Wide THEN Pick({MaxSize, 26, (MaxSize * MaxSize) \div 26}) ELSE IF Long THEN Pick({MaxSize \div 3, MaxSize \div 2, MaxSize - 1, MaxSize, 26}) ELSE Pick(1..MaxSize)
Other2(m) == IF Wide THEN 26 ELSE IF ~Long THEN Size(2) ELSE CHOOSE k \in {Pick((MaxSize \div 3)..26)} : TRUE
Fit(m, k) == IF Long /\ m * k > MaxSize * MaxSize THEN (MaxSize * MaxSize) \div m ELSE IF m * k < 4 THEN 4 ELSE k
\* many modes of one analysis: long series contribute to them unevenly
Gallery(k) == LET h == Held(k, 99) IN
    <<[op |-> "analyse", k |-> 99, nth |-> 0, gx |-> 0, gy |-> 0, plain |-> FALSE]>>
    \o [i \in 1..8 |-> [op |-> "plot", k |-> 0, nth |-> Pick(0..(h - 1)), gx |-> Pick(4..6), gy |-> Pick(4..6), plain |-> FALSE]]
Init == n = 0
Next == /\ n' = n + 1
        /\ \E m \in {Size(1)} : \E k \in {Other2(m)} : \E kk \in {Fit(m, k)} :
             \E P \in {Plate(HeldConfig(0), m, kk, MaxPlies)} : \E comp \in {Pick(1..2000)} :
             Emit("mode", [p |-> [P EXCEPT !.N = <<-comp, P.N[2], P.N[3]>>],
                           steps |-> IF Long THEN Gallery(m * kk) ELSE Steps(m * kk, Pick(0..3), 0)])
=============================================================================
