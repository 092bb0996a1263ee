------------------------------ MODULE Screening -----------------------------
(***************************************************************************)
(* Which arguments the constructors accept, and what the built object      *)
(* reports.  An argument value is [f, k, s]: a form of writing and the     *)
(* number k/10^s (meaningless for the forms that denote no finite number). *)
(***************************************************************************)
EXTENDS Fx

NumForms == {"int", "float", "str", "padded", "npfloat", "npint", "fraction", "decimal", "bool", "negzero"}
BadForms == {"none", "text", "empty", "list", "dict", "complex", "nan", "inf", "ninf", "nanstr", "infstr", "object"}

\* Parameters in positional order: <<name, kind, default>>; default "" means required.
Param(n, kind, d) == [n |-> n, kind |-> kind, d |-> d]
Sig == [ortho |-> <<Param("e1", "nonneg", ""), Param("e2", "nonneg", ""), Param("v12", "poisson", ""), Param("g12", "nonneg", ""),
                    Param("thickness", "nonneg", ""), Param("t1", "nonneg", "0"), Param("c1", "nonneg", "0"),
                    Param("t2", "nonneg", "0"), Param("c2", "nonneg", "0"), Param("s", "nonneg", "0")>>,
        iso   |-> <<Param("e", "nonneg", ""), Param("v", "poisson", ""), Param("g", "nonneg", ""), Param("thickness", "nonneg", ""),
                    Param("t", "nonneg", "0"), Param("c", "nonneg", "0"), Param("s", "nonneg", "0")>>,
        plate |-> <<Param("a", "nonneg", ""), Param("b", "nonneg", ""), Param("Nxx", "any", "0"), Param("Nyy", "any", "0"),
                    Param("Nxy", "any", "0"), Param("m", "size", "10"), Param("n", "size", "10")>>]
Classes == DOMAIN Sig
Default(d) == IF d = "10" THEN FInt(10) ELSE FZero
Whole(x) == BShl(BShr(x, FL), FL) = x
HalfOne == FRat(1, 2)

InBounds(kind, x) ==
    CASE kind = "any" -> TRUE
      [] kind = "nonneg" -> FLe(FZero, x)
      [] kind = "poisson" -> FLe(FAbs(x), HalfOne)
      [] kind = "size" -> Whole(x) /\ FLe(FOne, x)
\* val: the exact number of the argument, for number forms
Acceptable(kind, form, val) == form \in NumForms /\ InBounds(kind, val)
=============================================================================
