------------------------------- MODULE Session ------------------------------
(***************************************************************************)
(* A session of one user: containers (lists, arrays, dictionaries) that    *)
(* the user owns and may change at any time, objects built from them, and  *)
(* quantities read from the objects.  An object is its definition: the     *)
(* content of its arguments at the moment it was built.  Reading returns   *)
(* the value that belongs to the definition, and nothing but the user      *)
(* changes a container.                                                    *)
(*                                                                         *)
(* Containers: [kind, form, val], where val is                             *)
(*   angles    a sequence of angles (list, tuple or array)                 *)
(*   plies     a sequence of material numbers (list or tuple)              *)
(*   lp        [xd, xa, T] (xa = <<>> when the key is absent)              *)
(*   supports  four edges, <<"word", k>> or <<"list", motions...>>         *)
(*   guess     three numbers                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Mutable(b) == b.form \notin {"tuple"}
Resizable(b) == b.kind \in {"angles", "plies"} /\ b.form = "list"

\* what the user does to a container: <<name, arguments...>>
Apply(b, mu) ==
    LET v == b.val IN
    [b EXCEPT !.val =
       CASE mu[1] = "set"     -> [v EXCEPT ![mu[2]] = mu[3]]
         [] mu[1] = "append"  -> Append(v, mu[2])
         [] mu[1] = "pop"     -> SubSeq(v, 1, Len(v) - 1)
         [] mu[1] = "reverse" -> Reverse(v)
         [] mu[1] = "xd"      -> [v EXCEPT !.xd[mu[2]] = mu[3]]
         [] mu[1] = "xa"      -> [v EXCEPT !.xa[mu[2]] = mu[3]]
         [] mu[1] = "noxa"    -> [v EXCEPT !.xa = <<>>]
         [] mu[1] = "newxd"   -> [v EXCEPT !.xd = mu[2]]
         [] mu[1] = "T"       -> [v EXCEPT !.T = mu[2]]
         [] mu[1] = "edge"    -> [v EXCEPT ![mu[2]] = mu[3]]
         [] mu[1] = "push"    -> [v EXCEPT ![mu[2]] = Append(@, mu[3])]
         [] mu[1] = "pull"    -> [v EXCEPT ![mu[2]] = SubSeq(@, 1, Len(@) - 1)]]

\* ---- definitions
LamDef(angles, plies) == [t |-> "lam", form |-> angles.form, st |-> angles.val, plies |-> plies.val, one |-> FALSE]
LamOne(angles, m)     == [t |-> "lam", form |-> angles.form, st |-> angles.val, plies |-> <<m>>, one |-> TRUE]
LpDef(b, m)           == [t |-> "lp", form |-> b.form, lp |-> b.val, mat |-> m]
MatDef(m)             == [t |-> "mat", i |-> m]
PlateDef(lam, sup, g) == [t |-> "plate", lam |-> lam, sup |-> sup, a |-> g.a, b |-> g.b, N |-> g.N, m |-> g.m, n |-> g.n]
StrDef(lam, N)        == [t |-> "str", lam |-> lam, N |-> N]

Quantities(d) ==
    CASE d.t = "mat"   -> {"Q_0", "Invariants", "v21", "fields"}
      [] d.t = "lam"   -> {"A", "B", "D", "ABD", "xiA", "xiD", "z_position", "Q_layup", "T_layup", "fields"}
      [] d.t = "lp"    -> {"A", "B", "D", "ABD", "xiA", "xiD", "fields"}
      [] d.t = "plate" -> {"K_D", "K_ABD", "factors", "factors_verbose", "factors_2", "fields"}
      [] d.t = "str"   -> {"epsilon0", "strain", "stress", "margins", "fields"}

\* (A command that builds a laminate may ask for materials of its own: equal ones,
\* made for this object and held by nothing else.  The definition is the same.)
\* ---- commands.  A state is [boxes, objs]; objs starts with one definition per
\* material.  Define gives the definition a command builds, reads or calls with.
EdgesOf(st, box) == IF box = 0 THEN <<"default">> ELSE <<"edges">> \o st.boxes[box].val
Define(st, c) ==
    CASE c.op = "lam"   -> IF c.plies = 0 THEN LamOne(st.boxes[c.box], c.mat) ELSE LamDef(st.boxes[c.box], st.boxes[c.plies])
      [] c.op = "lp"    -> LpDef(st.boxes[c.box], c.mat)
      [] c.op = "plate" -> PlateDef(st.objs[c.obj], EdgesOf(st, c.box), c.geo)
      [] c.op = "str"   -> StrDef(st.objs[c.obj], c.N)
      [] c.op = "read"  -> st.objs[c.obj]
      [] c.op = "call"  -> [t |-> c.fn, form |-> st.boxes[c.box].form, st |-> st.boxes[c.box].val,
                            x0 |-> IF c.guess = 0 THEN <<>> ELSE st.boxes[c.guess].val, mat |-> c.mat, geo |-> c.geo, text |-> c.text]
      [] OTHER          -> [t |-> "none"]
Gone == [t |-> "gone"]
After(st, c) ==
    [boxes |-> IF c.op = "change" THEN [st.boxes EXCEPT ![c.box] = Apply(@, c.mu)] ELSE st.boxes,
     objs  |-> CASE c.op \in {"lam", "lp", "plate", "str"} -> Append(st.objs, Define(st, c))
                 [] c.op = "drop" -> [st.objs EXCEPT ![c.obj] = Gone]
                 [] OTHER -> st.objs]
Record(st, c) == [c |-> c, def |-> Define(st, c), boxes |-> After(st, c).boxes]
=============================================================================
