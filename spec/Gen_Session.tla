----------------------------- MODULE Gen_Session ----------------------------
(* Random sessions: one behaviour is one session of Steps steps.            *)
EXTENDS Session, Draw
CONSTANT Steps
VARIABLES mats, start, boxes, objs, log
vars == <<mats, start, boxes, objs, log>>

\* ---- materials: a random one, neighbours one constant apart, a stranger
Mo(d) == [kind |-> "ortho", num |-> <<Pick(20000..200000), Pick(2000..20000), Pick(50..400), Pick(1500..9000), Pick(80..400)>>
                                    \o [i \in 1..5 |-> Pick(1..2000)]]
Mi(d) == [kind |-> "iso", num |-> <<Pick(2000..200000), Pick(50..400), Pick(1500..90000), Pick(80..400), Pick(1..2000), Pick(1..2000), Pick(1..2000)>>]
Near(m, i) == [m EXCEPT !.num[i] = @ + Pick({1, 7, 40})]
Mats(m) == <<m, m, Near(m, Pick(1..4)), Near(m, 5), Near(m, Pick(6..10)), Mo(0), Mi(0)>>
Ortho == 1..6
\* ---- containers
Xi(d) == [i \in 1..4 |-> Pick(-300..300)]
AnyMotion(d) == Pick({"TX", "TY", "TZ", "RX", "RY", "RZ"})
Edge(d) == IF Chance(2) THEN <<"word", Pick({"pinned", "clamped", "fixed", "simply_supported"})>>
           ELSE <<"list", "TZ">> \o [i \in 1..Pick(0..4) |-> AnyMotion(0)]
Box(kind, k) ==
    CASE kind = "angles"   -> [kind |-> kind, form |-> Pick({"list", "list", "array", "tuple"}), val |-> [i \in 1..k |-> Angle(i)]]
      [] kind = "plies"    -> [kind |-> kind, form |-> Pick({"list", "list", "tuple"}), val |-> [i \in 1..k |-> Pick(1..7)]]
      [] kind = "lp"       -> [kind |-> kind, form |-> Pick({"list", "array"}),
                               val |-> [xd |-> Xi(1), xa |-> IF Chance(2) THEN <<>> ELSE Xi(2), T |-> Pick(500..5000)]]
      [] kind = "supports" -> [kind |-> kind, form |-> "dict", val |-> [i \in 1..4 |-> Edge(i)]]
      [] kind = "guess"    -> [kind |-> kind, form |-> "list", val |-> <<IF Chance(4) THEN 1 ELSE Pick(500..5000)>>
                                                             \o (LET r == IF Chance(4) THEN 1500 ELSE 200 IN <<Pick(-r..r), Pick(-r..r)>>)]
Change(b) ==
    LET k == Len(b.val)  any == IF b.kind = "angles" THEN Angle(0) ELSE Pick(1..7) IN
    CASE b.kind \in {"angles", "plies"} /\ b.form = "array" -> <<"set", Pick(1..k), any>>
      [] b.kind \in {"angles", "plies"} -> Pick({<<"set", Pick(1..k), any>>, <<"append", any>>, <<"reverse">>} \cup
                                                (IF k > 1 THEN {<<"pop">>} ELSE {}))
      [] b.kind = "lp" -> Pick({<<"xd", Pick(1..4), Pick(-300..300)>>, <<"newxd", Xi(0)>>, <<"T", Pick(500..5000)>>}
                               \cup (IF b.val.xa = <<>> THEN {} ELSE {<<"xa", Pick(1..4), Pick(-300..300)>>, <<"noxa">>}))
      [] b.kind = "supports" -> LET j == Pick(1..4)  e == b.val[j] IN
              Pick({<<"edge", j, Edge(0)>>} \cup (IF e[1] = "list" THEN {<<"push", j, AnyMotion(0)>>} ELSE {})
                   \cup (IF e[1] = "list" /\ Len(e) > 2 THEN {<<"pull", j>>} ELSE {}))
      [] b.kind = "guess" -> <<"set", Pick(2..3), Pick(-200..200)>>

Live(T) == {i \in 1..Len(objs) : objs[i].t \in T}
BoxesOf(K) == {i \in 1..Len(boxes) : boxes[i].kind \in K}
Loads(k) == [i \in 1..k |-> Pick(-300..300)]
Geo(d) == [a |-> Pick(100..900), b |-> Pick(100..900), m |-> Pick(2..3), n |-> Pick(2..3),
           N |-> <<Pick(-300..(-1)), Pick(-300..50), Pick(-200..200)>>]
\* ---- commands
MakeLam(d) == CHOOSE s \in {LET same == {p \in BoxesOf({"plies"}) : Len(boxes[p].val) = Len(boxes[w].val)} IN
                 IF same # {} /\ ~Chance(4) THEN [op |-> "lam", box |-> w, plies |-> Pick(same), mat |-> 0, own |-> Chance(3)]
                 ELSE [op |-> "lam", box |-> w, plies |-> 0, mat |-> Pick(1..7), own |-> Chance(3)]
                 : w \in {Pick(BoxesOf({"angles"}))}} : TRUE
MakeLp(d) == [op |-> "lp", box |-> Pick(BoxesOf({"lp"})), mat |-> Pick(Ortho), own |-> Chance(3)]
MakePlate(d) == [op |-> "plate", obj |-> Pick(Live({"lam", "lp"})), geo |-> Geo(0),
                 box |-> IF Chance(2) THEN 0 ELSE Pick(BoxesOf({"supports"}))]
MakeStr(d) == [op |-> "str", obj |-> Pick(Live({"lam"})), N |-> Loads(6)]
Make(d) == CASE Live({"lam", "lp"}) = {} -> IF Chance(3) THEN MakeLp(0) ELSE MakeLam(0)
             [] Chance(3) -> MakePlate(0)
             [] Live({"lam"}) # {} /\ Chance(2) -> MakeStr(0)
             [] Chance(3) -> MakeLp(0)
             [] OTHER -> MakeLam(0)
Readable == Live({"mat", "lam", "lp", "plate", "str"})
Own == Readable \ (1..7)
Read(d) == CHOOSE s \in {[op |-> "read", obj |-> o, q |-> Pick(Quantities(objs[o]))]
                         : o \in {IF Own = {} \/ Chance(5) THEN Pick(Readable) ELSE Pick(Own)}} : TRUE
Mutate(d) == CHOOSE s \in {[op |-> "change", box |-> w, mu |-> Change(boxes[w])]
                           : w \in {Pick({i \in 1..Len(boxes) : Mutable(boxes[i])})}} : TRUE
Call(d) == CHOOSE s \in {[op |-> "call", fn |-> f, mat |-> Pick(Ortho), geo |-> Geo(0),
                          box |-> Pick(BoxesOf(IF f = "pcomp" THEN {"angles"} ELSE {"supports"})),
                          guess |-> Pick({0} \cup BoxesOf({"guess"})),
                          text |-> Pick({"[0/45/90]s", "(45/-45)_2/0_3", "\\pm30_4/90"})]
                         : f \in {Pick({"pcomp", "maximize", "minimize", "sequence"})}} : TRUE
Command(d) == LET c == Pick(1..20) IN
    CASE Own = {} \/ c <= 4 -> Make(0)
      [] c <= 7 -> Mutate(0)
      [] c = 8 -> [op |-> "drop", obj |-> Pick(Own)]
      [] c = 9 -> Call(0)
      [] OTHER -> Read(0)

Init == /\ mats = <<>> /\ boxes = <<>> /\ start = <<>> /\ log = <<>>       \* (drawn in Begin: one Init serves all behaviours)
        /\ objs = [i \in 1..7 |-> MatDef(i)]
Begin == /\ mats = <<>>
         /\ mats' \in {Mats(Mo(0))}
         /\ boxes' \in {<<Box("angles", k), Box("angles", j), Box("plies", k), Box("plies", j), Box("lp", 0),
                        Box("supports", 0), Box("supports", 0), Box("guess", 0)>> : k \in {Pick(1..5)}, j \in {Pick(1..4)}}
         /\ start' = boxes' /\ UNCHANGED <<objs, log>>
Step == mats # <<>> /\ \E c \in {Command(0)} : \E st \in {[boxes |-> boxes, objs |-> objs]} :
    /\ boxes' = After(st, c).boxes
    /\ objs' = After(st, c).objs
    /\ log' = Append(log, Record(st, c))
    /\ UNCHANGED <<mats, start>>
    /\ IF Len(log') = Steps THEN Emit("session", [mats |-> mats, start |-> start, log |-> log']) ELSE TRUE
Next == Begin \/ Step
=============================================================================
