----------------------------- MODULE Gen_Optimum ----------------------------
(* Random optimisation problems.  Loads are multiples of 1/1024 of the      *)
(* largest, which is f: the unit loads are then the same doubles for every  *)
(* whole f, and the optimiser's outcome should not depend on f at all.      *)
EXTENDS DrawPlate
CONSTANTS MaxSize, What
VARIABLE n
Ply(d) == LET e1 == Pick(60000..200000) IN
          [e1 |-> e1, e2 |-> Pick(5000..(e1 \div 2)), v12 |-> Pick(50..400), g12 |-> Pick(3000..(e1 \div 6))]
Loads(d) ==
    LET s == Pick({-1, 1})
        k == Pick({"x", "y", "xy", "yx", "s", "xs", "ys", "mix", "mix", "pull"})
        p == Pick(1..1024)  q == Pick(-1024..1024)
    IN CASE k = "x"  -> <<-1024, 0, 0>>       [] k = "y"  -> <<0, -1024, 0>>
         [] k = "xy" -> <<-1024, -p, 0>>      [] k = "yx" -> <<-p, -1024, 0>>
         [] k = "s"  -> <<0, 0, s * 1024>>    [] k = "xs" -> <<-1024, 0, q>>
         [] k = "ys" -> <<0, -1024, q>>       [] k = "mix" -> <<-1024, -(p \div 2), q \div 2>>
         [] k = "pull" -> <<p \div 3, -1024, q \div 2>>
Whole(d) == IF Chance(4) THEN <<"all", Pick({"pinned", "clamped"})>> ELSE HeldConfig(0)
Sides(d) == LET a == Pick(200..900) IN <<a, Pick((a \div 2)..(2 * a))>>
\* panels whose best laminate has all its fibres along the load, or at +-45 degrees: corners of the region
Support(d) == <<"word", Pick({"pinned", "clamped"})>>
Open == <<"list">>
Corner(d) == LET k == Pick({"0", "90", "45"})  s == Pick(200..900) IN
    CASE k = "0"  -> [c |-> <<"edges", Support(1), Support(2), Open, Open>>, N |-> <<-1024, 0, 0>>, s |-> Sides(0)]
      [] k = "90" -> [c |-> <<"edges", Open, Open, Support(1), Support(2)>>, N |-> <<0, -1024, 0>>, s |-> Sides(0)]
      [] k = "45" -> [c |-> <<"all", "pinned">>, N |-> <<-1024, -Pick(0..1024), 0>>, s |-> <<s, s + Pick(-9..9)>>]
Panel(d) == IF Chance(4) THEN Corner(0) ELSE [c |-> Whole(0), N |-> Loads(0), s |-> Sides(0)]
With(val, F(_)) == CHOOSE r \in {TLCEval(F(x)) : x \in {TLCEval(val)}} : TRUE
Problem(d) == With(<<Panel(0), Pick(2..MaxSize)>>, LAMBDA kx : LET k == kx[1]  x == kx[2] IN
    [mat |-> Ply(0), T |-> IF Chance(3) THEN Pick(200..3000) ELSE Pick(3000..8000), a |-> k.s[1], b |-> k.s[2], c |-> k.c, style |-> Style(0),
     m |-> x, n |-> IF x = 2 THEN Pick(2..MaxSize) ELSE IF Chance(2) THEN x ELSE Pick(2..MaxSize),
     N |-> k.N, f |-> IF Chance(2) THEN 1 ELSE Pick(2..3000), region |-> Pick({"triangle", "parabola"}),
     opt |-> Pick({0, 0, 0, 1, 2, 3}),
     unit |-> IF What = "twice" THEN "mm" ELSE Unit(0),       \* the units do not matter,
     mag |-> IF What = "twice" \/ Chance(2) THEN 0 ELSE Pick(0..12) - 6,     \* nor does the size of all loads
     x0 |-> Pick({0, 0, 1, 2, 3})])
\* load triples for the warnings: around the values where they begin or end.  tick moves a load by a trifle:
\* up or down to the next double (1, -1), by 1e-9 (2, -2), or at zero by 1e-40 (3, -3).
Edge(d) == [v |-> Pick({-2000, -1001, -1000, -1000, -999, -500, -1, 0, 0, 0, 0, 1, 500, 999, 1000, 1000, 1001, 1500}),
            tick |-> IF Chance(2) THEN Pick({-3, -2, -1, 1, 2, 3}) ELSE 0]
Init == n = 0
Next == /\ n' = n + 1
        /\ CASE What = "problem" -> Emit("problem", Problem(0))
             [] What = "twice"   -> Emit("twice", [p |-> Problem(0), g |-> Pick({2, 3, 7, 64, 1000, 44100})])
             [] What = "plot"    -> Emit("plot", [p |-> Problem(0), pts |-> Pick(2..9)])
             [] What = "fine"    -> Emit("plot", [p |-> Problem(0), pts |-> 2 * Pick(24..30)])
             [] What = "warn"    -> Emit("warn", [N |-> <<Edge(1), Edge(2), IF Chance(3) THEN [v |-> 0, tick |-> 0] ELSE Edge(3)>>, whole |-> Chance(4), fn |-> Pick({"max", "min"})])
=============================================================================
