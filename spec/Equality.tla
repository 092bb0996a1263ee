------------------------------ MODULE Equality ------------------------------
(***************************************************************************)
(* Content of materials and laminates.  A material is [kind, name, num]    *)
(* (num: its constants in constructor order); a stacked laminate is        *)
(* [kind |-> "stack", ang, of, mats, one] (of[i]: which material ply i is  *)
(* made of; one: given as a single material); a laminate by parameters is  *)
(* [kind |-> "lp", xa, xd, T, mat] (xa = <<>> when absent).                *)
(* Two objects are equal exactly when their contents are.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

MContent(m) == <<m.kind, m.num>>
LContent(d) == IF d.kind = "lp" THEN <<"lp", d.xa, d.xd, d.T, MContent(d.mat)>>
               ELSE <<"stack", d.ang, [i \in 1..Len(d.of) |-> MContent(d.mats[d.of[i]])]>>
Content(o) == IF o.kind \in {"ortho", "iso"} THEN MContent(o) ELSE LContent(o)
SameKind(a, b) == Content(a)[1] = Content(b)[1]
Same(a, b) == SameKind(a, b) /\ Content(a) = Content(b)

\* ---- one change away; a change by Trifle stands for the least one there is (to the next double)
Trifle == 500000000
Bump(s, i, d) == [s EXCEPT ![i] = @ + d]
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Poisson(m) == IF m.kind = "iso" THEN 2 ELSE 3
\* neighbouring constants exchanged, where the result is still a material
Swaps(m) == SelectSeq([i \in 1..(Len(m.num) - 1) |-> [m EXCEPT !.num = Swap(m.num, i, i + 1), !.name = "swapped"]],
                      LAMBDA x : x.num[Poisson(m)] <= 500)
MatVariants(m, d) ==
    <<m, m, [m EXCEPT !.name = "other"], [m EXCEPT !.name = ""]>>
    \o [i \in 1..Len(m.num) |-> [m EXCEPT !.num = Bump(m.num, i, d)]]
    \o Swaps(m)
RotateS(s) == IF Len(s) = 0 THEN s ELSE Tail(s) \o <<s[1]>>
StackVariants(l, d) ==
    LET n == Len(l.ang)  M == Len(l.mats) IN
    <<l, [l EXCEPT !.mats = [i \in 1..M |-> [l.mats[i] EXCEPT !.name = "twin"]]]>>
    \o (IF \A i \in 1..n : l.of[i] = l.of[1] THEN <<[l EXCEPT !.one = ~@]>> ELSE <<>>)
    \o [i \in 1..n |-> [l EXCEPT !.ang = Bump(l.ang, i, d)]]
    \o [i \in 1..n |-> [l EXCEPT !.ang = Bump(l.ang, i, 18000)]]
    \o [i \in 1..n |-> [l EXCEPT !.of = [@ EXCEPT ![i] = (@ % M) + 1], !.one = FALSE]]
    \o (IF n >= 2 THEN <<[l EXCEPT !.ang = RotateS(@)], [l EXCEPT !.of = RotateS(@)],
                         [l EXCEPT !.ang = RotateS(@), !.of = RotateS(@)],
                         [l EXCEPT !.ang = SubSeq(@, 1, n - 1), !.of = SubSeq(@, 1, n - 1)]>> ELSE <<>>)
    \o <<[l EXCEPT !.ang = Append(@, l.ang[n]), !.of = Append(@, l.of[n])]>>
    \o [i \in 1..Len(l.mats[l.of[1]].num) |-> [l EXCEPT !.mats[l.of[1]].num = Bump(@, i, d)]]
LpVariants(l, d) ==
    <<l, [l EXCEPT !.mat.name = "twin"], [l EXCEPT !.T = @ + d]>>
    \o (IF l.xa = <<>> THEN <<[l EXCEPT !.xa = <<0, 0, 0, 0>>]>> ELSE <<[l EXCEPT !.xa = <<>>]>>
                            \o [i \in 1..4 |-> [l EXCEPT !.xa = Bump(@, i, d)]])
    \o [i \in 1..4 |-> [l EXCEPT !.xd = Bump(@, i, d)]]
    \o <<[l EXCEPT !.xd = Swap(@, 1, 3)]>>
    \o [i \in 1..Len(l.mat.num) |-> [l EXCEPT !.mat.num = Bump(@, i, d)]]
Variants(o, d) == CASE o.kind \in {"ortho", "iso"} -> MatVariants(o, d) [] o.kind = "lp" -> LpVariants(o, d)
                    [] OTHER -> StackVariants(o, d)
=============================================================================
