----------------------------- MODULE MC_Supports ----------------------------
(***************************************************************************)
(* The removal of functions as a machine: the restraints of two opposite   *)
(* edges are applied one after the other, in any order, each striking one  *)
(* function from one field's list.                                         *)
(***************************************************************************)
EXTENDS Supports, Bardell
CONSTANT Size
VARIABLES first, last, todo, lists
vars == <<first, last, todo, lists>>
Init == /\ LoadShapes
        /\ first \in SUBSET Motions /\ last \in SUBSET Motions
        /\ todo = ({1} \X first) \cup ({2} \X last)
        /\ lists = [f \in Fields |-> [i \in 1..(Size + 4) |-> i - 1]]
FieldOf(mo) == CHOOSE f \in Fields : mo \in {ValueOf[f], SlopeOf[f]}
Strike == \E r \in todo :
    LET f == FieldOf(r[2])
        i == 2 * (r[1] - 1) + (IF r[2] = SlopeOf[f] THEN 1 ELSE 0)
    IN /\ lists' = [lists EXCEPT ![f] = SelectSeq(@, LAMBDA j : j # i)]
       /\ todo' = todo \ {r}
       /\ UNCHANGED <<first, last>>
Next == Strike
Done == todo = {}
Final(f) == SubSeq(lists[f], 1, Size)
Confluent == Done => \A f \in Fields : Final(f) = Kept(Size, first, last, f)
RightSize == Done => \A f \in Fields : Len(Final(f)) = Size /\ Cardinality({Final(f)[i] : i \in 1..Size}) = Size
\* every kept function obeys the restraints, and no function that obeys them is left out
Edge0(i) == IF i = 0 THEN {"value"} ELSE IF i = 1 THEN {"slope"} ELSE {}
Obeys(f, i) ==
    /\ (ValueOf[f] \in first => PolyAt(Shape(i), FNeg(FOne)) = FZero)
    /\ (ValueOf[f] \in last  => PolyAt(Shape(i), FOne) = FZero)
    /\ (SlopeOf[f] \in first => PolyAt(Deriv(Shape(i)), FNeg(FOne)) = FZero)
    /\ (SlopeOf[f] \in last  => PolyAt(Deriv(Shape(i)), FOne) = FZero)
Exact == Done => \A f \in Fields : LET K == Final(f) IN
            \A i \in 0..(Size + 3) : (Obeys(f, i) /\ i <= K[Size]) <=> (\E p \in 1..Size : K[p] = i)
\* a restraint touches its own field only
Independent == Done => \A f \in Fields :
    Final(f) = Kept(Size, first \cap {ValueOf[f], SlopeOf[f]}, last \cap {ValueOf[f], SlopeOf[f]}, f)
=============================================================================
