-------------------------------- MODULE Enums --------------------------------
(* Enums and flags: member numbering, identity of values, equality.                *)
EXTENDS Exprs

\* a member declaration: [n |-> name, x |-> tokens], x = <<>> without an explicit value
NextAuto(fl, v) == IF fl THEN IShl(IOne, IBitLen(v)) ELSE IAdd(v, IOne)     \* flag: next higher power of two
FirstAuto(fl) == IF fl THEN IOne ELSE IZero

\* [ok, j, ms |-> <<[n, v]>>, nx]
Number(fl, decls, consts) ==
  FoldLeft(LAMBDA s, m :
     IF ~s.ok THEN s
     ELSE LET r == IF m.x = <<>> THEN [ok |-> TRUE, v |-> s.nx, j |-> s.j]
                   ELSE Eval(m.x, Reverse(s.ms), consts)        \* the latest member of a name is in effect
          IN IF ~r.ok THEN [s EXCEPT !.ok = FALSE]
             ELSE [ok |-> TRUE, j |-> s.j /\ r.j /\ (fl => ~IsNeg(r.v)),
                   ms |-> Append(s.ms, [n |-> m.n, v |-> r.v]),
                   nx |-> IF fl /\ IsNeg(r.v) THEN IZero ELSE NextAuto(fl, r.v)],
     [ok |-> TRUE, j |-> TRUE, ms |-> <<>>, nx |-> FirstAuto(fl)], decls)

\* equality between objects [c |-> class id (0: a plain number), v]
EnumEq(a, b) == a.v = b.v /\ (a.c = b.c \/ a.c = 0 \/ b.c = 0)
=============================================================================
