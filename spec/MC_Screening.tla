---------------------------- MODULE MC_Screening ---------------------------
(***************************************************************************)
(* A call is prepared argument by argument, every argument from its good   *)
(* value, except one which is given in every form and at every boundary    *)
(* (exhaustively).  The constructor screens the arguments left to right    *)
(* and stops at the first it does not accept.  The invariant: the call is  *)
(* accepted exactly when the odd argument is acceptable, and then every    *)
(* parameter reports its value or default.  Each prepared call is emitted  *)
(* for replay.                                                             *)
(***************************************************************************)
EXTENDS Screening, Json

V(f, k, s) == [f |-> f, k |-> k, s |-> s]
Odd == {V(f, 2, 0) : f \in NumForms \ {"negzero", "bool"}} \cup {V("bool", 1, 0), V("negzero", 0, 0)}
       \cup {V(f, 0, 0) : f \in BadForms}
       \cup {V("float", k, 0) : k \in {0, 1, -1, 3, -7}} \cup {V("float", k, 9) : k \in {1, -1, 500000000, 500000001, -500000000, -500000001,
                                                            999999999, 1000000001, 1999999999, 2000000001}}
       \cup {V("float", 1, -20), V("float", -1, -20), V("float", 75, 1), V("str", -1, 0), V("npfloat", -1, 9), V("npint", -3, 0),
             V("fraction", 7, 1), V("decimal", 45, 2), V("float", 1, 30), V("float", -1, 30)}
Given(cls, i) == V("float", IF Sig[cls][i].kind = "poisson" THEN 3 ELSE IF Sig[cls][i].kind = "size" THEN 40 + 10 * i ELSE 11 + i, 1)

VARIABLES cls, odd, val, style, at, status
vars == <<cls, odd, val, style, at, status>>
Arg(i) == IF i = odd THEN val ELSE Given(cls, i)
Num(v) == LET n == IF v.s >= 0 THEN FOne ELSE FZero IN
          IF v.s < 0 THEN FMulI(FMulI(FInt(v.k * 100), 1000000000), 1000000000)  \* 10^20
          ELSE IF v.s = 30 THEN FDivI(FDivI(FDivI(FDivI(FInt(v.k), 100000000), 100000000), 100000000), 1000000)
          ELSE FDiv(FInt(v.k), FInt(CASE v.s = 0 -> 1 [] v.s = 1 -> 10 [] v.s = 2 -> 100 [] v.s = 9 -> 1000000000))
Ok(i) == Acceptable(Sig[cls][i].kind, Arg(i).f, Num(Arg(i)))

Init == /\ cls \in Classes /\ odd \in 1..Len(Sig[cls]) /\ val \in Odd /\ style \in {"positional", "keyword", "omit"}
        /\ at = 0 /\ status = "screening"
Screen == /\ status = "screening" /\ at < Len(Sig[cls])
          /\ at' = at + 1
          /\ status' = IF Ok(at + 1) THEN (IF at + 1 = Len(Sig[cls]) THEN "built" ELSE "screening") ELSE "refused"
          /\ UNCHANGED <<cls, odd, val, style>>
Next == Screen
ExactlyValid == /\ status = "built" => Ok(odd)
                /\ status = "refused" => ~Ok(odd) /\ at = odd
Emitted == at = 0 => PrintT("GEN " \o ToJson(
    [kind |-> "call", v |-> [cls |-> cls, style |-> style,
      args |-> [i \in 1..Len(Sig[cls]) |-> [n |-> Sig[cls][i].n, v |-> Arg(i),
                given |-> (i = odd \/ style # "omit" \/ Sig[cls][i].d = "")]]]]))
=============================================================================
