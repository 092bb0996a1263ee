------------------------------ MODULE DrawPlate -----------------------------
(* Random plates: laminate, size, supports, loads, series sizes.            *)
EXTENDS Draw

Thin(d) == [m |-> AnyMat(d), t |-> Pick(80..400), a |-> Allow(d), nm |-> Name(d)]
Lam(mx) == LET k == Pick(1..2)  n == Pick(1..mx)  sym == Chance(3) IN
    [mats |-> [i \in 1..k |-> Thin(i)], container |-> Pick({"list", "tuple", "array"}), single |-> Chance(2), unit |-> Unit(0),
     lam |-> LET cross == Chance(6)                              \* plies along the axes, but for tiny misalignments
                 h == [i \in 1..n |-> IF cross THEN [k |-> Pick(1..k), th |-> Pick({0, 9000}), f |-> IF Chance(2) THEN Pick(-60000..60000) ELSE 0]
                                      ELSE [k |-> Pick(1..k), th |-> Angle(i), f |-> Fine(i)]]
             IN IF ~sym THEN h
                ELSE IF Chance(3) THEN h \o [i \in 1..n |-> IF i = n THEN [h[1] EXCEPT !.th = @ + Pick(-30..30)] ELSE h[n + 1 - i]]  \* nearly
                ELSE h \o [i \in 1..n |-> h[n + 1 - i]]]
Word(d) == Pick({"free", "pinned", "pinned", "simply_supported", "clamped", "clamped", "fixed"})
MotionList(d) == [i \in 1..Pick(0..7) |-> Pick({"TX", "TY", "TZ", "RX", "RY", "RZ"})]
AnyEdge(d) == IF Chance(2) THEN <<"word", Word(0)>> ELSE <<"list">> \o MotionList(0)
\* restrains w (and perhaps u, v): a plate with two such edges cannot move as a rigid body
HeldEdge(d) == CASE Chance(2) -> <<"word", Pick({"pinned", "simply_supported", "clamped", "fixed"})>>
                 [] OTHER -> <<"list", "TZ">> \o MotionList(0)
AnyConfig(d) == CASE Chance(12) -> <<"default">>
                  [] Chance(10) -> <<"all", Pick({"pinned", "clamped"})>>
                  [] OTHER -> <<"edges", AnyEdge(1), AnyEdge(2), AnyEdge(3), AnyEdge(4)>>
HeldConfig(d) == CASE Chance(8) -> <<"default">>
                   [] Chance(6) -> <<"all", Pick({"pinned", "clamped"})>>
                   [] OTHER -> LET p == Pick({<<1, 2>>, <<3, 4>>, <<1, 3>>, <<1, 4>>, <<2, 3>>, <<2, 4>>})
                               IN <<"edges">> \o [i \in 1..4 |-> IF i \in {p[1], p[2]} THEN HeldEdge(i) ELSE AnyEdge(i)]
Side(d) == IF Chance(4) THEN 100 * Pick(1..20) ELSE Pick(50..2500)
Load(d) == IF Chance(4) THEN 0 ELSE Pick(-2000..2000)
Mag(d) == IF Chance(3) THEN Pick(-12..9) ELSE 0               \* loads far from one
Style(d) == Pick({"lower", "upper", "title"})
Plate(c, m, n, mx) ==
    [lam |-> Lam(mx), a |-> Side(1), b |-> Side(2), c |-> c, style |-> Style(0), m |-> m, n |-> n, mag |-> Mag(0),
     N |-> <<Load(1), Load(2), Load(3)>>]
=============================================================================
