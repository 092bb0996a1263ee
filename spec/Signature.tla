------------------------------ MODULE Signature -----------------------------
(***************************************************************************)
(* What a call means.  Every public callable has a documented list of      *)
(* parameters, in an order, some with a documented default.  A call gives  *)
(* the first few by position, others by name in any order, and may leave   *)
(* out those with a default; it means the binding of every parameter to    *)
(* one value.  Values are written as Python literals; @name stands for an  *)
(* object the caller holds.                                                *)
(*                                                                         *)
(* A state is a call of a callable.  The transitions rewrite the call      *)
(* without changing its meaning: the next parameter is given by position   *)
(* instead of by name, or back; a value equal to the default is left out,  *)
(* or written; two named arguments change places.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

R(n)    == [name |-> n, dflt |-> ""]              \* required
D(n, d) == [name |-> n, dflt |-> d]
Loads   == <<D("Nxx", "0"), D("Nyy", "0"), D("Nxy", "0")>>
Sig == [
  ortho    |-> <<R("e1"), R("e2"), R("v12"), R("g12"), R("thickness"), D("t1", "0"), D("c1", "0"), D("t2", "0"), D("c2", "0"), D("s", "0")>>,
  iso      |-> <<R("e"), R("v"), R("g"), R("thickness"), D("t", "0"), D("c", "0"), D("s", "0")>>,
  laminate |-> <<R("stacking"), R("plies")>>,
  strength |-> <<R("dproperty")>> \o Loads \o <<D("Mxx", "0"), D("Myy", "0"), D("Mxy", "0")>>,
  plate    |-> <<R("dproperty"), R("a"), R("b"), D("constraints", "'PINNED'")>> \o Loads \o <<D("m", "10"), D("n", "10")>>,
  analyse  |-> <<D("silent", "True"), D("num_eigvalues", "5")>>,
  draw     |-> <<D("nth", "0"), D("ngridx", "20"), D("ngridy", "20")>>,
  sequence |-> <<R("stacking")>>,
  card     |-> <<R("sequence"), R("midi"), R("ti"), D("pid", "1"), D("z0", "''"), D("sout", "'FIBER'")>>,
  maximise |-> <<R("a"), R("b"), R("T"), R("E1"), R("E2"), R("v12"), R("G12")>> \o Loads
               \o <<D("m", "7"), D("n", "7"), D("panel_constraint", "'PINNED'"), D("options", "None"), D("tol", "None"),
                    D("plot", "False"), D("points_to_plot", "30"), D("penalty", "True")>>,
  minimise |-> <<R("a"), R("b"), R("E1"), R("E2"), R("v12"), R("G12")>> \o Loads
               \o <<D("m", "7"), D("n", "7"), D("x0", "[0.1, 0.0, 0.0]"), D("panel_constraint", "'PINNED'"),
                    D("options", "None"), D("tol", "None")>> ]
Callables == DOMAIN Sig
Count(f) == Len(Sig[f])
At(f, n) == CHOOSE i \in 1..Count(f) : Sig[f][i].name = n
Optional(f, i) == Sig[f][i].dflt # ""

\* ---- calls: pos is a sequence of values, kw a sequence of <<name, value>>
Names(kw) == {kw[i][1] : i \in 1..Len(kw)}
Legal(f, c) ==
    /\ Len(c.pos) <= Count(f)
    /\ Cardinality(Names(c.kw)) = Len(c.kw)
    /\ Names(c.kw) \subseteq {Sig[f][i].name : i \in (Len(c.pos) + 1)..Count(f)}
    /\ \A i \in (Len(c.pos) + 1)..Count(f) : Optional(f, i) \/ Sig[f][i].name \in Names(c.kw)
ValueOf(f, c, i) ==
    IF i <= Len(c.pos) THEN c.pos[i]
    ELSE IF Sig[f][i].name \in Names(c.kw) THEN c.kw[CHOOSE k \in 1..Len(c.kw) : c.kw[k][1] = Sig[f][i].name][2]
    ELSE Sig[f][i].dflt
Meaning(f, c) == [i \in 1..Count(f) |-> ValueOf(f, c, i)]
Full(f, b) == [pos |-> <<>>, kw |-> [i \in 1..Count(f) |-> <<Sig[f][i].name, b[i]>>]]

\* ---- rewriting
Without(kw, k) == SubSeq(kw, 1, k - 1) \o SubSeq(kw, k + 1, Len(kw))
NextNamed(f, c) == {k \in 1..Len(c.kw) : Len(c.pos) < Count(f) /\ c.kw[k][1] = Sig[f][Len(c.pos) + 1].name}
Positioned(f, c) == {[pos |-> Append(c.pos, c.kw[k][2]), kw |-> Without(c.kw, k)] : k \in NextNamed(f, c)}
Named(f, c) == IF c.pos = <<>> THEN {}
               ELSE {[pos |-> SubSeq(c.pos, 1, Len(c.pos) - 1),
                      kw |-> <<<<Sig[f][Len(c.pos)].name, c.pos[Len(c.pos)]>>>> \o c.kw]}
Omitted(f, c) == {[c EXCEPT !.kw = Without(@, k)] : k \in {j \in 1..Len(c.kw) : Sig[f][At(f, c.kw[j][1])].dflt = c.kw[j][2]}}
              \cup (IF c.pos # <<>> /\ Sig[f][Len(c.pos)].dflt = c.pos[Len(c.pos)]
                    THEN {[c EXCEPT !.pos = SubSeq(@, 1, Len(@) - 1)]} ELSE {})
Written(f, c) == {[c EXCEPT !.kw = Append(@, <<Sig[f][i].name, Sig[f][i].dflt>>)] :
                  i \in {j \in (Len(c.pos) + 1)..Count(f) : Optional(f, j) /\ Sig[f][j].name \notin Names(c.kw)}}
Swapped(c) == {[c EXCEPT !.kw = [@ EXCEPT ![k] = c.kw[k + 1], ![k + 1] = c.kw[k]]] : k \in 1..(Len(c.kw) - 1)}
Rewritings(f, c) == Positioned(f, c) \cup Named(f, c) \cup Omitted(f, c) \cup Written(f, c) \cup Swapped(c)

VARIABLES fn, call, given
Start(g, b) == fn = g /\ given = b /\ call = Full(g, b)
Rewrite == /\ call' \in Rewritings(fn, call)
           /\ UNCHANGED <<fn, given>>
AlwaysLegal == Legal(fn, call)
MeaningKept == Meaning(fn, call) = given
FullSaysAll == Meaning(fn, Full(fn, given)) = given /\ Legal(fn, Full(fn, given))
=============================================================================
