----------------------------- MODULE MC_Printed -----------------------------
(***************************************************************************)
(* Texts written from known contents in every style (order of the entries, *)
(* signs between label and number, brackets and lines) and read a          *)
(* character at a time: the reader finds exactly the contents, and one     *)
(* number changed, dropped, doubled or put under another label is noticed. *)
(***************************************************************************)
EXTENDS Printed
CONSTANT MaxEntries
Words == <<"E1", "v12", "stacking", "S">>
Numbers == <<"60800.0", "-0.3", "1e-05", "0">>
Runs == {<<>>, <<1>>, <<2, 4>>, <<3, 3, 1>>}
Opening == {" = ", "=", ": ", "': "}
Boxes == {"bare", "list", "array", "typed"}
VARIABLES cont, sty, pos, st, harm
\* cont: sequence of [w, ns]; sty: [open, box, nl]
Num(i, box) == IF box = "typed" THEN "np.float64(" \o Numbers[i] \o ")" ELSE Numbers[i]
RECURSIVE Joined(_, _, _)
Joined(ns, box, sep) == IF ns = <<>> THEN "" ELSE Num(ns[1], box) \o (IF Len(ns) = 1 THEN "" ELSE sep) \o Joined(Tail(ns), box, sep)
Boxed(ns, box) == CASE box = "bare" -> Joined(ns, box, ", ") [] box = "array" -> "[ " \o Joined(ns, box, " ") \o " ]"
                    [] OTHER -> "[" \o Joined(ns, box, ", ") \o "]"
RECURSIVE Written(_, _)
Written(c, s) == IF c = <<>> THEN "" ELSE
    (IF s.open = "': " THEN "'" ELSE "") \o Words[c[1].w] \o s.open \o Boxed(c[1].ns, s.box) \o s.sep \o Written(Tail(c), s)
Harmed(c) == CASE harm = "none" -> c
               [] harm = "drop" -> Tail(c)
               [] harm = "twice" -> <<c[1]>> \o c
               [] harm = "other" -> [c EXCEPT ![1].ns = Append(@, 1)]
               [] harm = "change" -> [c EXCEPT ![1].ns = [i \in 1..Len(@) |-> (@[i] % 4) + 1]]
Txt == TLCEval("Thing(T300/5208 made,\n " \o Written(Harmed(cont), sty) \o ")")
Entry == [w : 1..Len(Words), ns : Runs]
Init == /\ cont \in {c \in UNION {[1..k -> Entry] : k \in 1..MaxEntries} : \A i, j \in 1..Len(c) : i # j => c[i].w # c[j].w}
        /\ sty \in [open : Opening, box : Boxes, sep : {", ", ", \n        ", "} "}]
        /\ harm \in {"none", "drop", "twice", "other", "change"}
        /\ harm # "none" => sty.sep = ", " /\ sty.open = "="
        /\ Len(cont) > 2 => sty.sep = ", " /\ harm \in {"none", "other"}
        /\ pos = 0 /\ st = LookStart
Next == /\ pos < Len(Txt) /\ pos' = pos + 1 /\ st' = LookStep(st, SubSeq(Txt, pos', pos'))
        /\ UNCHANGED <<cont, sty, harm>>
Vals(ns) == [i \in 1..Len(ns) |-> NumVal(Numbers[ns[i]])]
Found == \A i \in 1..Len(cont) : ShowsAll(LookEnd(st), Words[cont[i].w], Vals(cont[i].ns))
ReadsBack == pos = Len(Txt) => (Found <=> harm = "none" \/ (harm = "change" /\ cont[1].ns = <<>>))
NothingElse == pos = Len(Txt) /\ harm = "none" => Len(LookEnd(st)) = Len(cont)
\* neighbouring doubles are told apart: 1 and 1 + 2^-52
Ulp == FDivI(FDivI(FOne, 67108864), 67108864)
ASSUME /\ Exactly(FOne, FOne) /\ ~Exactly(FAdd(FOne, Ulp), FOne) /\ ~Exactly(FOne, FAdd(FOne, Ulp))
       /\ Occurs("Ply(lam 1, E", "lam 1") /\ ~Occurs("Ply(lam", "lam 1") /\ Occurs("x", "")
=============================================================================
