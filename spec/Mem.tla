-------------------------------- MODULE Mem ----------------------------------
(* Structure and union values as views of one byte buffer (C11, C17).            *)
(* The state of a value of a fixed-size type T is its bytes.  A field, at any      *)
(* depth, is a location in those bytes; every attribute of the value is what       *)
(* parsing the field's type at its location gives, and assigning a field puts the   *)
(* bytes of the new value there and leaves all other bits alone.                   *)
EXTENDS Codec

\* location of a path (1-based field numbers, element numbers of arrays)
\* [o |-> offset, t |-> type, b |-> bits or 0, ub |-> bits of the unit used before]
LocStep(T, E, i) ==
  CASE T.k = "st" -> LET it == Layout(T, E).it[i] IN [o |-> it.o, t |-> T.f[i].t, b |-> T.f[i].b, ub |-> it.ub]
    [] T.k = "un" -> [o |-> Max2(T.f[i].o, 0), t |-> T.f[i].t, b |-> T.f[i].b, ub |-> 0]
    [] T.k = "arr" -> [o |-> (i - 1) * SizeOf(T.e, E), t |-> T.e, b |-> 0, ub |-> 0]
RECURSIVE LocFrom(_, _, _)
LocFrom(loc, E, path) ==
  IF path = <<>> THEN loc
  ELSE LET s == LocStep(loc.t, E, Head(path))
           o == loc.o + s.o
       IN LocFrom([o |-> o, t |-> s.t, b |-> s.b, ub |-> s.ub], E, Tail(path))
Loc(T, E, path) == LocFrom([o |-> 0, t |-> T, b |-> 0, ub |-> 0], E, path)

\* data bits of a location, as a byte mask over n bytes
LocMask(loc, E, n) ==
  IF loc.b > 0 THEN MaskOf(UnitBitExt(SizeOf(UnitType(loc.t), E), E.e, loc.o, loc.ub, loc.b), 0, n)
  ELSE MaskOf(Read(loc.t, E, Zeros(n), loc.o, <<>>).m, 0, n)
\* every data bit of the type, over its SizeOf bytes
DataMask(T, E) == LET n == SizeOf(T, E) IN MaskOf(Read(T, E, Zeros(n), 0, <<>>).m, 0, n)

LocBytes(loc, E, v) ==      \* bytes of the value from loc.o on
  IF loc.b > 0
  THEN LET us == SizeOf(UnitType(loc.t), E)
           sh == IF E.e = "l" THEN loc.ub ELSE 8 * us - loc.ub - loc.b
       IN InOrder(EncodeLE(IShl(v.v, sh), us), E.e)
  ELSE Write(loc.t, E, v)

Patch(buf, o, bs0, mk0) ==    \* bits of mk come from bs (which is put at o)
  LET bs == TLCEval(bs0)  mk == TLCEval(mk0) IN
  [i \in 1..Len(buf) |->
     LET nw == IF i - o >= 1 /\ i - o <= Len(bs) THEN bs[i - o] ELSE 0
     IN (nw & mk[i]) | (buf[i] & (255 - mk[i]))]

Assign(T, E, buf, path, v) ==
  LET loc == Loc(T, E, path) IN Patch(buf, loc.o, LocBytes(loc, E, v), LocMask(loc, E, Len(buf)))
\* bits that are padding inside a value on the path to the assigned field: where a union has other members
\* there, the assignment (which rewrites the values it goes through) may clear them
Free(T, E, n, path) ==
  LET one(q) == LET loc == Loc(T, E, q)
                    mk == LocMask(loc, E, n)
                    z == IF loc.b > 0 THEN 0 ELSE SizeOf(loc.t, E)
                IN [i \in 1..n |-> IF i > loc.o /\ i <= loc.o + z THEN 255 - mk[i] ELSE 0]
  IN FoldLeft(LAMBDA acc, k : LET o == TLCEval(one(SubSeq(path, 1, k))) IN TLCEval([i \in 1..n |-> acc[i] | o[i]]),
              Zeros(n), [k \in 1..Len(path) |-> k])
AssignOK(loc, E, v) ==      \* a value in the domain of the location
  IF loc.b > 0 THEN IntLike(v) /\ FitsBits(v.v, loc.b) ELSE Dom(loc.t, E, v) = "ok"

View(T, E, buf) == Read(T, E, buf, 0, <<>>)
Get(T, E, buf, path) ==
  LET loc == Loc(T, E, path) IN
  IF loc.b > 0
  THEN LET us == SizeOf(UnitType(loc.t), E)
           n == DecodeLE(InOrder(Take(buf, loc.o, us), E.e), FALSE)
           lo == IF E.e = "l" THEN loc.ub ELSE 8 * us - loc.ub - loc.b
       IN [k |-> IF loc.t.k = "enm" THEN "e" ELSE "i", v |-> FromBits(BitsOf(n, lo, loc.b))]
  ELSE Read(loc.t, E, buf, loc.o, <<>>).v

\* all paths to fields
RECURSIVE Paths(_)
Paths(T) ==
  CASE T.k \in {"st", "un"} ->
         UNION {{<<i>>} \cup {<<i>> \o p : p \in Paths(T.f[i].t)} : i \in 1..Len(T.f)}
    [] T.k = "arr" -> IF T.e.k \in {"st", "un"} /\ T.l.k = "n"
                      THEN UNION {{<<i>> \o p : p \in Paths(T.e)} : i \in 1..T.l.n} ELSE {}
    [] OTHER -> {}
=============================================================================
