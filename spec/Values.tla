------------------------------- MODULE Values --------------------------------
(* Structure values: equality, truth (C17).                                      *)
EXTENDS Mem

FEq(a, b) ==       \* floats without NaN: positive and negative zero are equal
  IF a.c = "z" /\ b.c = "z" THEN TRUE ELSE a = b
RECURSIVE VEq(_, _)
VEq(a, b) ==
  CASE a.k \in {"l", "s", "u"} -> a.k = b.k /\ Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : VEq(a.v[i], b.v[i])
    [] a.k = "f" -> b.k = "f" /\ FEq(a.v, b.v)
    [] OTHER -> a.k = b.k /\ a.v = b.v
RECURSIVE HasZeroFloat(_)
HasZeroFloat(a) ==
  CASE a.k \in {"l", "s", "u"} -> \E i \in 1..Len(a.v) : HasZeroFloat(a.v[i])
    [] a.k = "f" -> a.v.c = "z"
    [] OTHER -> FALSE
\* a zero float inside a union: whether +0 and -0 in it are equal is not said
RECURSIVE UnionZeroFloat(_)
UnionZeroFloat(a) ==
  CASE a.k = "u" -> HasZeroFloat(a)
    [] a.k \in {"l", "s"} -> \E i \in 1..Len(a.v) : UnionZeroFloat(a.v[i])
    [] OTHER -> FALSE
\* is a field value true?  numbers: not zero; strings and arrays: not empty; structures: any field
RECURSIVE Truthy(_)
Truthy(a) ==
  CASE IntLike(a) -> ~IsZero(a.v)
    [] a.k = "f" -> a.v.c # "z"
    [] a.k \in {"c", "w", "l"} -> Len(a.v) > 0
    [] a.k \in {"s", "u"} -> \E i \in 1..Len(a.v) : Truthy(a.v[i])
    [] OTHER -> FALSE
=============================================================================
