---------------------------- MODULE Gen_Histories ---------------------------
(***************************************************************************)
(* All short histories over a fixed family: every sequence of Reads reads  *)
(* of one object, and, for every way of building a second object one       *)
(* change away from the first, the reads  first.q second.q first.q  for    *)
(* every quantity q.                                                       *)
(***************************************************************************)
EXTENDS Session, Json, TLC
CONSTANT Reads
VARIABLES todo
Mo == [kind |-> "ortho", num |-> <<130000, 9000, 310, 5100, 150, 1500, 1200, 50, 170, 90>>]
Mats == <<Mo>> \o [i \in 1..10 |-> [Mo EXCEPT !.num[i] = @ + 10]] \o <<[kind |-> "iso", num |-> <<70000, 300, 27000, 150, 300, 280, 190>>]>>
Boxes == << [kind |-> "angles", form |-> "list", val |-> <<1000, -3500, 9000>>],
            [kind |-> "plies", form |-> "list", val |-> <<1, 3, 12>>],
            [kind |-> "lp", form |-> "list", val |-> [xd |-> <<100, -50, 200, 30>>, xa |-> <<-70, 20, 110, -40>>, T |-> 1200]],
            [kind |-> "supports", form |-> "dict", val |-> <<<<"word", "pinned">>, <<"list", "TZ", "RZ">>, <<"word", "clamped">>, <<"list", "TX", "TZ">>>>],
            [kind |-> "angles", form |-> "array", val |-> <<1000, -3500, 9000>>] >>
M == Len(Mats)
Geo == [a |-> 500, b |-> 300, m |-> 2, n |-> 3, N |-> <<-100, -40, 30>>]
Lam0 == [op |-> "lam", box |-> 1, plies |-> 2, mat |-> 0, own |-> FALSE]
LamA == [op |-> "lam", box |-> 5, plies |-> 2, mat |-> 0, own |-> FALSE]
Lam1 == [op |-> "lam", box |-> 1, plies |-> 0, mat |-> 1, own |-> FALSE]
Lp0 == [op |-> "lp", box |-> 3, mat |-> 1, own |-> FALSE]
Plate0(l) == [op |-> "plate", obj |-> l, box |-> 4, geo |-> Geo]
Str0(l) == [op |-> "str", obj |-> l, N |-> <<-100, 30, 20, 5, -7, 11>>]
Ch(b, mu) == [op |-> "change", box |-> b, mu |-> mu]
Rd(o, q) == [op |-> "read", obj |-> o, q |-> q]
Start == [boxes |-> Boxes, objs |-> [i \in 1..M |-> MatDef(i)]]
Play(cs) == FoldLeft(LAMBDA acc, c : <<After(acc[1], c), Append(acc[2], Record(acc[1], c))>>, <<Start, <<>>>>, cs)

\* ways of building one object: <<commands, number of the object>>
Bases == {<<<<Lam0>>, M + 1>>, <<<<Lam1>>, M + 1>>, <<<<LamA>>, M + 1>>, <<<<Lp0>>, M + 1>>,
          <<<<Lam0, Plate0(M + 1)>>, M + 2>>, <<<<Lp0, Plate0(M + 1)>>, M + 2>>, <<<<Lam0, Str0(M + 1)>>, M + 2>>,
          <<<<>>, 1>>, <<<<>>, M>>}
DefOf(b) == Play(b[1])[1].objs[b[2]]
QSeqs(b) == [1..Reads -> Quantities(DefOf(b))]
Single == UNION {{b[1] \o [i \in 1..Reads |-> Rd(b[2], qs[i])] : qs \in QSeqs(b)} : b \in Bases}

\* a second object: <<first's commands, first, commands in between, second>>
LamTwins(l) == {<<<<l>>, M + 1, <<Ch(l.box, <<"set", i, 2000>>), l>>, M + 2>> : i \in 1..3}
               \cup (IF l.plies = 0 THEN {<<<<l>>, M + 1, <<[l EXCEPT !.mat = j]>>, M + 2>> : j \in 2..M}
                     ELSE {<<<<l>>, M + 1, <<Ch(2, <<"set", i, 6>>), l>>, M + 2>> : i \in 1..3})
               \cup (IF l.box = 1 THEN {<<<<l>>, M + 1, <<Ch(1, <<"reverse">>), l>>, M + 2>>,
                                       <<<<Lam1>>, M + 1, <<Ch(1, <<"append", 0>>), Lam1>>, M + 2>>,
                                       <<<<Lam1>>, M + 1, <<Ch(1, <<"pop">>), Lam1>>, M + 2>>} ELSE {})
LpTwins == {<<<<Lp0>>, M + 1, <<Ch(3, mu), Lp0>>, M + 2>> : mu \in
              {<<x, i, 77>> : x \in {"xd", "xa"}, i \in 1..4} \cup {<<"T", 1300>>, <<"noxa">>, <<"newxd", <<1, 2, 3, 4>>>>}}
           \cup {<<<<Lp0>>, M + 1, <<[Lp0 EXCEPT !.mat = j]>>, M + 2>> : j \in 2..11}
PlateTwins == LET P == Plate0(M + 1)  made == <<Lam0, P>> IN
   {<<made, M + 2, <<[P EXCEPT !.geo = g]>>, M + 3>> : g \in
        {[Geo EXCEPT !.a = 510], [Geo EXCEPT !.b = 310], [Geo EXCEPT !.m = 3], [Geo EXCEPT !.n = 2], [Geo EXCEPT !.m = 3, !.n = 2],
         [Geo EXCEPT !.N[1] = -110], [Geo EXCEPT !.N[2] = -50], [Geo EXCEPT !.N[3] = -30], [Geo EXCEPT !.a = 300, !.b = 500]}}
   \cup {<<made, M + 2, <<Ch(4, mu), P>>, M + 3>> : mu \in
            {<<"edge", i, <<"word", "fixed">>>> : i \in 1..4} \cup {<<"push", 2, "TX">>, <<"pull", 2>>, <<"push", 4, "RZ">>}}
   \cup {<<made, M + 2, <<[P EXCEPT !.box = 0]>>, M + 3>>,
         <<made, M + 2, <<Ch(1, <<"set", 2, 2000>>), Lam0, [P EXCEPT !.obj = M + 3]>>, M + 4>>,
         <<made, M + 2, <<[Lam1 EXCEPT !.mat = 6], [P EXCEPT !.obj = M + 3]>>, M + 4>>,
         <<made, M + 2, <<Lp0, [P EXCEPT !.obj = M + 3]>>, M + 4>>,
         <<<<Lp0, P>>, M + 2, <<Ch(3, <<"T", 1300>>), Lp0, [P EXCEPT !.obj = M + 3]>>, M + 4>>}
StrTwins == LET S == Str0(M + 1) IN
   {<<<<Lam0, S>>, M + 2, <<[S EXCEPT !.N[i] = 50]>>, M + 3>> : i \in 1..6}
   \cup {<<<<Lam0, S>>, M + 2, <<Ch(1, <<"set", i, 2000>>), Lam0, [S EXCEPT !.obj = M + 3]>>, M + 4>> : i \in 1..3}
   \cup {<<<<Lam0, S>>, M + 2, <<Ch(2, <<"set", i, j>>), Lam0, [S EXCEPT !.obj = M + 3]>>, M + 4>> : i \in 1..2, j \in {2, 6, 9}}
MatTwins == {<<<<>>, 1, <<>>, j>> : j \in 2..M}
Twin == UNION {LET a == Play(t[1])[1].objs[t[2]]
                          b == Play(t[1] \o t[3])[1].objs[t[4]]
                      IN {t[1] \o <<Rd(t[2], q)>> \o t[3] \o <<Rd(t[4], q), Rd(t[2], q)>> : q \in Quantities(a) \cap Quantities(b)}
                           \cup {t[1] \o t[3] \o <<Rd(t[4], q), Rd(t[2], q)>> : q \in Quantities(a) \cap Quantities(b)}
               : t \in LamTwins(Lam0) \cup LamTwins(Lam1) \cup LamTwins(LamA) \cup LpTwins \cup PlateTwins \cup StrTwins \cup MatTwins}
\* the first object is given up before the second one is made (which may then
\* take its place in memory); laminates may hold materials of their own
Own(t) == [i \in 1..Len(t) |-> IF t[i].op \in {"lam", "lp"} THEN [t[i] EXCEPT !.own = TRUE] ELSE t[i]]
Given == UNION {LET a == Play(t[1])[1].objs[t[2]]
                    b == Play(t[1] \o t[3])[1].objs[t[4]]
                IN {t[1] \o <<Rd(t[2], q), [op |-> "drop", obj |-> t[2]]>> \o t[3] \o <<Rd(t[4], q)>> : q \in Quantities(a) \cap Quantities(b)}
                : t \in {<<Own(t[1]), t[2], Own(t[3]), t[4]>> : t \in LamTwins(Lam0) \cup LamTwins(Lam1) \cup LpTwins}
                        \cup PlateTwins \cup StrTwins}
\* the same, giving up everything the first object was made of
Afresh(t) == \A i \in 1..Len(t[3]) : t[3][i].op \in {"plate", "str"} => t[3][i].obj > t[2]
Whole == UNION {LET a == Play(t[1])[1].objs[t[2]]
                    b == Play(t[1] \o t[3])[1].objs[t[4]]
                IN {t[1] \o <<Rd(t[2], q)>> \o [i \in 1..(t[2] - M) |-> [op |-> "drop", obj |-> t[2] + 1 - i]] \o t[3] \o <<Rd(t[4], q)>>
                    : q \in Quantities(a) \cap Quantities(b)}
                : t \in {<<Own(t[1]), t[2], Own(t[3]), t[4]>> : t \in {t \in PlateTwins \cup StrTwins : Afresh(t)}}}
Init == todo \in Single \cup Twin \cup Given \cup Whole
Next == /\ todo # <<>>
        /\ PrintT("GEN " \o ToJson([kind |-> "session", v |-> [mats |-> Mats, start |-> Boxes, log |-> Play(todo)[2]]]))
        /\ todo' = <<>>
=============================================================================
