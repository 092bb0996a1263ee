----------------------------- MODULE Similarity -----------------------------
(***************************************************************************)
(* Changes of a plate that change its buckling factors in a known way.     *)
(* A plate is [lam, a, b, c, style, m, n, N, sE, sT, sA, sN]: a drawn      *)
(* plate with, for moduli, thickness, dimensions and loads, the sequence   *)
(* of the scale factors (in thousandths) applied so far.                   *)
(***************************************************************************)
EXTENDS Supports

Scaled(P) == [lam |-> P.lam, a |-> P.a, b |-> P.b, c |-> P.c, style |-> P.style, m |-> P.m, n |-> P.n, N |-> P.N,
              sE |-> <<>>, sT |-> <<>>, sA |-> <<>>, sN |-> <<>>]
Turn(P, F(_)) == [P EXCEPT !.lam.lam = [i \in 1..Len(@) |-> [@[i] EXCEPT !.th = F(@)]]]
\* a reflection also turns round what an angle has beyond hundredths of a degree
Back(ply) == IF "f" \in DOMAIN ply THEN [ply EXCEPT !.f = -@] ELSE ply
Reflect(P, F(_)) == Turn([P EXCEPT !.lam.lam = [i \in 1..Len(@) |-> Back(@[i])]], F)
SwapMotion == [TX |-> "TY", TY |-> "TX", TZ |-> "TZ", RX |-> "RY", RY |-> "RX", RZ |-> "RZ"]
SwapEdge(e) == IF e[1] = "word" THEN e ELSE <<"list">> \o [i \in 1..(Len(e) - 1) |-> SwapMotion[e[i + 1]]]
SwapConfig(c) == IF c[1] # "edges" THEN c
                 ELSE <<"edges", SwapEdge(c[4]), SwapEdge(c[5]), SwapEdge(c[2]), SwapEdge(c[3])>>

Transform(P, s) ==
    CASE s[1] = "moduli" -> [P EXCEPT !.sE = Append(@, s[2])]
      [] s[1] = "loads"  -> [P EXCEPT !.sN = Append(@, s[2])]
      [] s[1] = "thick"  -> [P EXCEPT !.sT = Append(@, s[2])]
      [] s[1] = "dims"   -> [P EXCEPT !.sA = Append(@, s[2])]
      \* x and y change places (reflection in the diagonal)
      [] s[1] = "swap"   -> [Reflect(P, LAMBDA t : 9000 - t) EXCEPT !.a = P.b, !.b = P.a, !.m = P.n, !.n = P.m,
                                !.N = <<P.N[2], P.N[1], P.N[3]>>, !.c = SwapConfig(@)]
      [] s[1] = "mirror_x" -> [Reflect(P, LAMBDA t : -t) EXCEPT !.N[3] = -@,
                                !.c = IF @[1] = "edges" THEN <<"edges", @[3], @[2], @[4], @[5]>> ELSE @]
      [] s[1] = "mirror_y" -> [Reflect(P, LAMBDA t : -t) EXCEPT !.N[3] = -@,
                                !.c = IF @[1] = "edges" THEN <<"edges", @[2], @[3], @[5], @[4]>> ELSE @]
      [] s[1] = "half_turn" -> Turn(P, LAMBDA t : t + 18000)
      [] s[1] = "back_turn" -> Turn(P, LAMBDA t : t - 18000)
      [] s[1] = "upside_down" -> [P EXCEPT !.lam.lam = Reverse(@)]
      [] s[1] = "grow_m" -> [P EXCEPT !.m = @ + 1]
      [] s[1] = "grow_n" -> [P EXCEPT !.n = @ + 1]

\* The series kept in a direction is symmetric only when it is long enough to
\* hold every end function that the supports leave.
Whole(P) == LET E == Edges(P.c) IN
    <<P.m >= 4 - Cardinality(Removed(E[1], E[2], "w")), P.n >= 4 - Cardinality(Removed(E[3], E[4], "w"))>>
Allowed(P, s) == CASE s[1] = "mirror_x" -> Whole(P)[1] [] s[1] = "mirror_y" -> Whole(P)[2] [] OTHER -> TRUE

\* Exponent of the scale factor in the law of the factors; 0: unchanged
Power(s) == CASE s[1] = "moduli" -> 1 [] s[1] = "loads" -> -1 [] s[1] = "thick" -> 3 [] s[1] = "dims" -> -2 [] OTHER -> 0
Refines(s) == s[1] \in {"grow_m", "grow_n"}
=============================================================================
