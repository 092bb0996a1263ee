------------------------------- MODULE Supports -----------------------------
(***************************************************************************)
(* Edge supports.  Each edge restrains a set of motions: TX, TY, TZ fix    *)
(* the value and RX, RY, RZ the slope of u, v, w along that edge.  In each *)
(* direction function 0 carries the value and function 1 the slope at the  *)
(* first edge, 2 and 3 those at the opposite edge.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Motions == {"TX", "TY", "TZ", "RX", "RY", "RZ"}
Fields  == {"u", "v", "w"}
ValueOf == [u |-> "TX", v |-> "TY", w |-> "TZ"]
SlopeOf == [u |-> "RX", v |-> "RY", w |-> "RZ"]

Keyword(k) == CASE k = "free" -> {}
                [] k \in {"pinned", "simply_supported"} -> {"TX", "TY", "TZ"}
                [] k \in {"fixed", "clamped"} -> Motions

\* An edge is written as <<"word", k>> or <<"list", motion, motion, ...>>
EdgeSet(e) == IF e[1] = "word" THEN Keyword(e[2]) ELSE {e[i] : i \in 2..Len(e)}
\* The whole plate: <<"all", k>>, <<"default">> or <<"edges", x0, xa, y0, yb>>
Edges(c) == CASE c[1] = "default" -> [i \in 1..4 |-> Keyword("pinned")]
              [] c[1] = "all"     -> [i \in 1..4 |-> Keyword(c[2])]
              [] c[1] = "edges"   -> [i \in 1..4 |-> EdgeSet(c[i + 1])]

Removed(first, last, f) ==
    {i \in 0..3 : \/ i = 0 /\ ValueOf[f] \in first
                  \/ i = 1 /\ SlopeOf[f] \in first
                  \/ i = 2 /\ ValueOf[f] \in last
                  \/ i = 3 /\ SlopeOf[f] \in last}
Kept(size, first, last, f) ==
    LET R == Removed(first, last, f)
    IN SubSeq(SelectSeq([i \in 1..(size + 4) |-> i - 1], LAMBDA i : i \notin R), 1, size)

\* Function indices of field f along x and along y
AlongX(c, m, f) == LET E == Edges(c) IN Kept(m, E[1], E[2], f)
AlongY(c, n, f) == LET E == Edges(c) IN Kept(n, E[3], E[4], f)
\* Pairs, the index along y running fastest
Pairs(X, Y) == [k \in 1..(Len(X) * Len(Y)) |-> <<X[(k - 1) \div Len(Y) + 1], Y[((k - 1) % Len(Y)) + 1]>>]
=============================================================================
