------------------------------- MODULE Codec --------------------------------
(* Types, layout and the byte codecs.                                            *)
(*                                                                               *)
(* Type descriptors D (JSON objects in the traces):                              *)
(*   [k|->"int", n|->name, s|->size, sg|->signed, al|->alignment]                 *)
(*   [k|->"flt", s|->2|4|8]  [k|->"chr"]  [k|->"wch"]  [k|->"leb", sg]  [k|->"vd"]*)
(*   [k|->"enm", b|->int type]                (enum or flag)                      *)
(*   [k|->"ptr", t|->target descriptor or name]                                   *)
(*   [k|->"arr", e|->D, l|->length]  length: [k|->"n", n] fixed,                  *)
(*        [k|->"x", x|->tokens, c|->constant?] expression, [k|->"z"] x[],         *)
(*        [k|->"e"] x[EOF]                                                        *)
(*   [k|->"st", a|->aligned?, f|-><<[n, t, b(bits or 0), o(offset or -1)]>>]      *)
(*   [k|->"un", a, f]                                                             *)
(* Environment E: [e |-> "l"|"b", p |-> pointer int type, c |-> <<[n, v]>>]       *)
(*                                                                               *)
(* Values: [k|->"i"|"e"|"p", v|->Int] [k|->"c", v|->bytes] [k|->"w", v|->units]   *)
(*   [k|->"f", v|->[c, s, m, e]] [k|->"v", v|->0] [k|->"l"|"s"|"u", v|-><<...>>]  *)
EXTENDS Exprs, TLC

AlignUp(x, a) == IF a <= 1 THEN x ELSE ((x + a - 1) \div a) * a

RECURSIVE Same(_, _)
Same(a, b) ==
  /\ a.k = b.k
  /\ CASE a.k \in {"l", "s", "u"} ->
            Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : Same(a.v[i], b.v[i])
       [] OTHER -> a.v = b.v
\* NaN-free?  (a NaN is equal to nothing)
RECURSIVE HasNaN(_)
HasNaN(a) ==
  CASE a.k \in {"l", "s", "u"} -> \E i \in 1..Len(a.v) : HasNaN(a.v[i])
    [] a.k = "f" -> a.v.c = "n"
    [] OTHER -> FALSE

IntLike(v) == v.k \in {"i", "e", "p"}

(* ------------------------------- layout ------------------------------------ *)
UnitType(T) == IF T.k = "enm" THEN T.b ELSE T      \* storage type of a bit-field
UName(U) == IF U.k = "int" THEN U.n ELSE U.k

RECURSIVE AlignOf(_, _)
AlignOf(T, E) ==
  CASE T.k = "int" -> T.al
    [] T.k = "flt" -> T.s
    [] T.k = "wch" -> 2
    [] T.k = "enm" -> AlignOf(T.b, E)
    [] T.k = "ptr" -> AlignOf(E.p, E)
    [] T.k = "arr" -> AlignOf(T.e, E)
    [] T.k \in {"st", "un"} ->
         FoldLeft(LAMBDA m, f : Max2(m, AlignOf(f.t, E)), 1, T.f)
    [] OTHER -> 1      \* chr, leb, vd

\* constant array length, or -1
ConstLen(L, E) ==
  CASE L.k = "n" -> IF L.n < 0 THEN 0 ELSE L.n
    [] L.k = "x" -> IF ~L.c THEN -1
                    ELSE LET r == Eval(L.x, <<>>, E.c) IN
                         IF ~r.ok THEN -1 ELSE IF IsNeg(r.v) THEN 0 ELSE ToInt(r.v)
    [] OTHER -> -1

\* Fold over the fields.  off = -1 once dynamic.  it = per field
\*   [o |-> offset or -1, nu |-> starts a new storage unit, ub |-> bits used before in the unit]
RECURSIVE SizeOf(_, _), Layout(_, _)
Layout(T, E) ==
  LET step(s, f) ==
        LET a   == IF T.a THEN AlignOf(f.t, E) ELSE 1
            at  == IF f.o >= 0 THEN AlignUp(f.o, a) ELSE IF s.off < 0 THEN -1 ELSE AlignUp(s.off, a)
            al2 == Max2(s.al, AlignOf(f.t, E))
        IN IF f.b > 0
           THEN LET U  == UnitType(f.t)
                    us == SizeOf(U, E)
                    nu == s.rem = 0 \/ s.ut # UName(U)
                    rem == (IF nu THEN 8 * us ELSE s.rem) - f.b
                IN [off |-> IF nu THEN (IF at < 0 THEN -1 ELSE at + us) ELSE s.off,
                    al |-> al2, ut |-> UName(U), rem |-> rem, ok |-> s.ok /\ rem >= 0,
                    uo |-> IF nu THEN at ELSE s.uo,
                    it |-> Append(s.it, [o |-> IF nu THEN at ELSE s.uo, nu |-> nu,
                                         ub |-> 8 * us - rem - f.b])]
           ELSE LET z == SizeOf(f.t, E)
                IN [off |-> IF at < 0 \/ z < 0 THEN -1 ELSE at + z,
                    al |-> al2, ut |-> "", rem |-> 0, ok |-> s.ok, uo |-> -1,
                    it |-> Append(s.it, [o |-> at, nu |-> TRUE, ub |-> 0])]
      r == FoldLeft(step, [off |-> 0, al |-> 1, ut |-> "", rem |-> 0, ok |-> TRUE, uo |-> -1,
                           it |-> <<>>], T.f)
  IN [off |-> r.off, al |-> r.al, ok |-> r.ok, it |-> r.it]

SizeOf(T, E) ==      \* -1: no fixed size
  CASE T.k \in {"int", "flt"} -> T.s
    [] T.k = "chr" -> 1
    [] T.k = "wch" -> 2
    [] T.k = "leb" -> -1
    [] T.k = "vd"  -> 0
    [] T.k = "enm" -> SizeOf(T.b, E)
    [] T.k = "ptr" -> SizeOf(E.p, E)
    [] T.k = "arr" -> LET z == SizeOf(T.e, E)
                          c == ConstLen(T.l, E)
                      IN IF z < 0 \/ c < 0 THEN -1 ELSE c * z
    [] T.k = "st" -> LET L == Layout(T, E) IN
                     IF L.off < 0 THEN -1 ELSE AlignUp(L.off, IF T.a THEN L.al ELSE 1)
    [] T.k = "un" ->
         LET m == FoldLeft(LAMBDA s, f :
                     LET z == SizeOf(f.t, E) IN IF s < 0 \/ z < 0 THEN -1 ELSE Max2(s, z + Max2(f.o, 0)), 0, T.f)
         IN IF m < 0 THEN -1 ELSE AlignUp(m, IF T.a THEN AlignOf(T, E) ELSE 1)

\* an x[EOF] tail extends to the end of the input: nothing, not even padding, follows it
RECURSIVE EndsEof(_)
EndsEof(T) == CASE T.k = "arr" -> T.l.k = "e"
                [] T.k = "st" -> Len(T.f) > 0 /\ EndsEof(T.f[Len(T.f)].t)
                [] OTHER -> FALSE
TailPadded(T) == T.a /\ ~EndsEof(T)

\* does the definition get accepted at all? (straddling bit-fields are rejected, at any depth)
RECURSIVE DefOK(_, _)
DefOK(T, E) ==
  CASE T.k = "arr" -> DefOK(T.e, E)
    [] T.k = "un" -> \A i \in 1..Len(T.f) : DefOK(T.f[i].t, E) /\ (T.f[i].b > 0 => T.f[i].b <= 8 * SizeOf(UnitType(T.f[i].t), E))
    [] T.k = "st" -> Layout(T, E).ok /\ \A i \in 1..Len(T.f) : DefOK(T.f[i].t, E)
    [] OTHER -> TRUE

(* ------------------------------- scalars ----------------------------------- *)
\* Stream bytes d (0-based positions).  Every reader returns
\*   [ok |-> TRUE, v, p (next position), m (data extents)]  or  [ok |-> FALSE, x (reason), p, m]
\* m is a sequence of <<from, to, mask>>: bytes from..to-1 carry data under mask (255 = all bits).
Fail(x, p) == [ok |-> FALSE, v |-> [k |-> "v", v |-> 0], x |-> x, p |-> p, m |-> <<>>]
Good(v, p, m) == [ok |-> TRUE, v |-> v, x |-> "", p |-> p, m |-> m]
Ext(p, n) == IF n = 0 THEN <<>> ELSE <<<<p, p + n, 255>>>>
\* marker extent: the input used a non-minimal LEB128 encoding (readable, but never written back)
NonCanon == <<<<-1, -1, 0>>>>
Has(d, p, n) == n = 0 \/ p + n <= Len(d)
Take(d, p, n) == SubSeq(d, p + 1, p + n)
InOrder(bs, e) == IF e = "l" THEN bs ELSE Reverse(bs)     \* to little-endian byte order

ReadInt(T, E, d, p) == DecodeLE(InOrder(Take(d, p, T.s), E.e), T.sg)
WriteInt(T, E, n) == InOrder(EncodeLE(n, T.s), E.e)

MantBits(w) == CASE w = 2 -> 10 [] w = 4 -> 23 [] w = 8 -> 52
ExpBits(w)  == CASE w = 2 -> 5  [] w = 4 -> 8  [] w = 8 -> 11
Bias(w)     == CASE w = 2 -> 15 [] w = 4 -> 127 [] w = 8 -> 1023
FZero(s) == [c |-> "z", s |-> s, m |-> <<>>, e |-> 0]
FInf(s)  == [c |-> "i", s |-> s, m |-> <<>>, e |-> 0]
FNaN     == [c |-> "n", s |-> 0, m |-> <<>>, e |-> 0]
RECURSIVE StripTop(_)
StripTop(bits) == IF Len(bits) > 0 /\ bits[Len(bits)] = 0 THEN StripTop(SubSeq(bits, 1, Len(bits) - 1)) ELSE bits
RECURSIVE LowZeros(_, _)
LowZeros(bits, i) == IF i > Len(bits) \/ bits[i] = 1 THEN i - 1 ELSE LowZeros(bits, i + 1)
DecodeFloat(le, w) ==
  LET n  == Norm(0, le)
      mb == MantBits(w)
      s  == BitOf(n, 8 * w - 1)
      ex == ToInt(FromBits(BitsOf(n, mb, ExpBits(w))))
      mm == BitsOf(n, 0, mb)
      mx == Pow2(ExpBits(w)) - 1
      full == StripTop(IF ex = 0 THEN mm ELSE Append(mm, 1))
      z    == LowZeros(full, 1)
  IN IF ex = mx THEN (IF \A i \in 1..mb : mm[i] = 0 THEN FInf(s) ELSE FNaN)
     ELSE IF full = <<>> THEN FZero(s)
     ELSE [c |-> "f", s |-> s, m |-> SubSeq(full, z + 1, Len(full)), e |-> Max2(ex, 1) - Bias(w) - mb + z]
\* can f be represented exactly in w bytes?
FloatExact(f, w) ==
  \/ f.c # "f"
  \/ LET h == f.e + Len(f.m) - 1 IN
     /\ h <= Bias(w)
     /\ f.e >= 1 - Bias(w) - MantBits(w)
     /\ (h >= 1 - Bias(w) => Len(f.m) - 1 <= MantBits(w))
EncodeFloat(f, w) ==      \* f exact in w; little-endian bytes
  LET mb == MantBits(w)
      h  == f.e + Len(f.m) - 1
      zs(k) == [i \in 1..k |-> 0]
      mexp == Pow2(ExpBits(w)) - 1
      fld == CASE f.c = "z" -> [m |-> zs(mb), x |-> 0]
               [] f.c = "i" -> [m |-> zs(mb), x |-> mexp]
               [] f.c = "n" -> [m |-> Append(zs(mb - 1), 1), x |-> mexp]
               [] f.c = "f" ->
                    IF h < 1 - Bias(w)
                    THEN LET lo == zs(f.e - (1 - Bias(w) - mb)) \o f.m
                         IN [m |-> lo \o zs(mb - Len(lo)), x |-> 0]
                    ELSE [m |-> zs(mb - (Len(f.m) - 1)) \o SubSeq(f.m, 1, Len(f.m) - 1), x |-> h + Bias(w)]
      bits == fld.m \o BitsOf(FromNat(fld.x), 0, ExpBits(w)) \o <<f.s>>
  IN Low(FromBits(bits), w)

\* LEB128
RECURSIVE LebEnd(_, _)
LebEnd(d, p) == IF p >= Len(d) THEN -1 ELSE IF d[p + 1] < 128 THEN p + 1 ELSE LebEnd(d, p + 1)
LebVal(bs, sg) ==
  LET last == bs[Len(bs)]
      neg  == sg /\ (last % 128) >= 64
      fb   == IF neg THEN 1 ELSE 0
      bits == FoldLeft(LAMBDA acc, b : acc \o [i \in 1..7 |-> (b \div Pow2(i - 1)) % 2], <<>>, bs)
      pad  == (8 - (Len(bits) % 8)) % 8
  IN Norm(IF neg THEN 255 ELSE 0, PackBits(bits \o [i \in 1..pad |-> fb]))
RECURSIVE LebBytes(_, _)
LebBytes(n, sg) ==
  LET b == BAt(n, 0) % 128
      r == IShr(n, 7)
      stop == IF sg THEN (IsZero(r) /\ b < 64) \/ (r = INot(IZero) /\ b >= 64) ELSE IsZero(r)
  IN IF stop THEN <<b>> ELSE <<128 + b>> \o LebBytes(r, sg)

\* UTF-16 code units of bytes / well-formedness (surrogates paired)
Units(bs, e) == [i \in 1..(Len(bs) \div 2) |->
                   IF e = "l" THEN bs[2 * i - 1] + 256 * bs[2 * i] ELSE bs[2 * i] + 256 * bs[2 * i - 1]]
IsHi(u) == u >= 55296 /\ u <= 56319
IsLo(u) == u >= 56320 /\ u <= 57343
RECURSIVE Utf16OK(_, _)
Utf16OK(us, i) ==
  IF i > Len(us) THEN TRUE
  ELSE IF IsHi(us[i]) THEN i < Len(us) /\ IsLo(us[i + 1]) /\ Utf16OK(us, i + 2)
  ELSE ~IsLo(us[i]) /\ Utf16OK(us, i + 1)
UnitBytes(us, e) == FoldLeft(LAMBDA acc, u : acc \o (IF e = "l" THEN <<u % 256, u \div 256>>
                                                     ELSE <<u \div 256, u % 256>>), <<>>, us)

ReadWch(E, d, p, n) ==
  IF ~Has(d, p, 2 * n) THEN Fail("eof", p)
  ELSE LET us == Units(Take(d, p, 2 * n), E.e) IN
       IF Utf16OK(us, 1) THEN Good([k |-> "w", v |-> us], p + 2 * n, Ext(p, 2 * n)) ELSE Fail("dec", p)

IsZeroVal(v) == CASE IntLike(v) -> IsZero(v.v)
                  [] v.k = "f" -> v.v.c = "z"
                  [] OTHER -> FALSE
RECURSIVE ZeroElem(_)
ZeroElem(v) == CASE v.k \in {"s", "u"} -> \A i \in 1..Len(v.v) : ZeroElem(v.v[i])
                 [] v.k = "l" -> v.v = <<>>
                 [] v.k \in {"c", "w"} -> v.v = <<>>
                 [] v.k = "v" -> TRUE
                 [] OTHER -> IsZeroVal(v)

RECURSIVE FirstZero(_, _)
FirstZero(d, p) == IF p >= Len(d) THEN -1 ELSE IF d[p + 1] = 0 THEN p ELSE FirstZero(d, p + 1)
RECURSIVE FirstZero2(_, _)
FirstZero2(d, p) == IF p + 2 > Len(d) THEN -1
                    ELSE IF d[p + 1] = 0 /\ d[p + 2] = 0 THEN p ELSE FirstZero2(d, p + 2)

\* bits of a field inside a storage unit of us bytes at up: <<byte position, mask>> extents
UnitBitExt(us, e, up, ub, b) ==
  LET lo == IF e = "l" THEN ub ELSE 8 * us - ub - b
      bytei(i) == IF e = "l" THEN up + i ELSE up + us - 1 - i      \* i-th least significant byte
      RECURSIVE msk(_, _)
      msk(i, j) == IF j > 7 THEN 0
                   ELSE (IF 8 * i + j >= lo /\ 8 * i + j < lo + b THEN Pow2(j) ELSE 0) + msk(i, j + 1)
      all == [i \in 1..us |-> <<bytei(i - 1), bytei(i - 1) + 1, msk(i - 1, 0)>>]
  IN SelectSeq(all, LAMBDA t : t[3] # 0)

(* ------------------------------- reading ----------------------------------- *)
RECURSIVE Read(_, _, _, _, _), ReadMember(_, _, _, _), ReadN(_, _, _, _, _, _), ReadZ(_, _, _, _, _), ReadE(_, _, _, _, _),
          ReadFields(_, _, _, _, _, _)

ReadArr(T, E, d, p, cx) ==
  LET cnt == CASE T.l.k = "n" -> [ok |-> TRUE, n |-> ConstLen(T.l, E)]
               [] T.l.k = "x" -> LET r == Eval(T.l.x, cx, E.c) IN
                                 IF ~r.ok \/ ~r.j \/ ~(IsNeg(r.v) \/ Small(r.v)) THEN [ok |-> FALSE, n |-> 0]
                                 ELSE [ok |-> TRUE, n |-> IF IsNeg(r.v) THEN 0 ELSE ToInt(r.v)]
               [] OTHER -> [ok |-> TRUE, n |-> 0]
  IN
  CASE T.l.k \in {"n", "x"} ->
       IF ~cnt.ok THEN Fail("expr", p)
       ELSE (CASE T.e.k = "chr" -> IF Has(d, p, cnt.n)
                                   THEN Good([k |-> "c", v |-> Take(d, p, cnt.n)], p + cnt.n, Ext(p, cnt.n))
                                   ELSE Fail("eof", p)
               [] T.e.k = "wch" -> ReadWch(E, d, p, cnt.n)
               [] OTHER -> LET z == SizeOf(T.e, E) IN
                           IF z > 0 /\ ~Has(d, p, 1) /\ cnt.n > 0 THEN Fail("eof", p)
                           ELSE ReadN(T.e, E, d, Good([k |-> "l", v |-> <<>>], p, <<>>), cx, cnt.n))
    [] T.l.k = "z" ->
       (CASE T.e.k = "chr" -> LET z == FirstZero(d, p) IN
                              IF z < 0 THEN Fail("eof", p)
                              ELSE Good([k |-> "c", v |-> Take(d, p, z - p)], z + 1, Ext(p, z + 1 - p))
          [] T.e.k = "wch" -> LET z == FirstZero2(d, p) IN
                              IF z < 0 THEN Fail("eof", p)
                              ELSE LET r == ReadWch(E, d, p, (z - p) \div 2) IN
                                   IF r.ok THEN Good(r.v, z + 2, Ext(p, z + 2 - p)) ELSE r
          [] OTHER -> ReadZ(T.e, E, d, Good([k |-> "l", v |-> <<>>], p, <<>>), cx))
    [] T.l.k = "e" ->
       LET q == Min2(p, Len(d)) IN
       (CASE T.e.k = "chr" -> Good([k |-> "c", v |-> Take(d, q, Len(d) - q)], Len(d), Ext(q, Len(d) - q))
          [] T.e.k = "wch" -> ReadWch(E, d, q, (Len(d) - q) \div 2)
          [] OTHER -> ReadE(T.e, E, d, Good([k |-> "l", v |-> <<>>], p, <<>>), cx))

ReadN(T, E, d, acc, cx, n) ==
  IF n = 0 THEN acc
  ELSE LET r == Read(T, E, d, acc.p, cx) IN
       IF ~r.ok THEN r
       ELSE ReadN(T, E, d, Good([k |-> "l", v |-> Append(acc.v.v, r.v)], r.p, acc.m \o r.m), cx, n - 1)
ReadZ(T, E, d, acc, cx) ==
  LET r == Read(T, E, d, acc.p, cx) IN
  IF ~r.ok THEN r
  ELSE IF ZeroElem(r.v) THEN Good(acc.v, r.p, acc.m \o r.m)
  ELSE ReadZ(T, E, d, Good([k |-> "l", v |-> Append(acc.v.v, r.v)], r.p, acc.m \o r.m), cx)
ReadE(T, E, d, acc, cx) ==      \* as many whole elements as there are
  IF acc.p >= Len(d) THEN acc
  ELSE LET r == Read(T, E, d, acc.p, cx) IN
       IF ~r.ok THEN (IF r.x = "eof" THEN acc ELSE r)
       ELSE ReadE(T, E, d, Good([k |-> "l", v |-> Append(acc.v.v, r.v)], r.p, acc.m \o r.m), cx)

Read(T, E, d, p, cx) ==
  CASE T.k = "int" -> IF Has(d, p, T.s) THEN Good([k |-> "i", v |-> ReadInt(T, E, d, p)], p + T.s, Ext(p, T.s))
                      ELSE Fail("eof", p)
    [] T.k = "flt" -> IF Has(d, p, T.s)
                      THEN Good([k |-> "f", v |-> DecodeFloat(InOrder(Take(d, p, T.s), E.e), T.s)], p + T.s, Ext(p, T.s))
                      ELSE Fail("eof", p)
    [] T.k = "chr" -> IF Has(d, p, 1) THEN Good([k |-> "c", v |-> Take(d, p, 1)], p + 1, Ext(p, 1)) ELSE Fail("eof", p)
    [] T.k = "wch" -> ReadWch(E, d, p, 1)
    [] T.k = "leb" -> LET q == LebEnd(d, p) IN
                      IF q < 0 THEN Fail("eof", p)
                      ELSE LET n == LebVal(Take(d, p, q - p), T.sg)
                           IN Good([k |-> "i", v |-> n], q,
                                   Ext(p, q - p) \o (IF LebBytes(n, T.sg) = Take(d, p, q - p) THEN <<>> ELSE NonCanon))
    [] T.k = "vd"  -> Good([k |-> "v", v |-> 0], p, <<>>)
    [] T.k = "enm" -> LET r == Read(T.b, E, d, p, cx) IN IF r.ok THEN [r EXCEPT !.v.k = "e"] ELSE r
    [] T.k = "ptr" -> LET r == Read(E.p, E, d, p, cx) IN IF r.ok THEN [r EXCEPT !.v.k = "p"] ELSE r
    [] T.k = "arr" -> ReadArr(T, E, d, p, cx)
    [] T.k = "st"  -> LET L == Layout(T, E)
                          s0 == [ok |-> TRUE, p |-> p, cx |-> <<>>, vs |-> <<>>, m |-> <<>>, x |-> "",
                                 up |-> 0, xt |-> <<>>]
                          r == ReadFields(T, E, d, p, L, s0)
                      IN IF ~r.ok THEN Fail(r.x, r.p)
                         ELSE Good([k |-> "s", v |-> r.vs],
                                   IF TailPadded(T) THEN p + AlignUp(r.p - p, L.al) ELSE r.p, r.m)
    [] T.k = "un"  -> LET z == SizeOf(T, E)
                          rs == TLCEval([i \in 1..Len(T.f) |-> ReadMember(T.f[i], E, d, p)])
                          bad == SelectInSeq(rs, LAMBDA r : ~r.ok)
                      IN IF bad > 0 THEN rs[bad]
                         ELSE Good([k |-> "u", v |-> TLCEval([i \in 1..Len(rs) |-> rs[i].v])],
                                   IF z >= 0 THEN p + z
                                   ELSE FoldLeft(LAMBDA mx, r : Max2(mx, r.p), p, rs),
                                   FoldLeft(LAMBDA acc, r : acc \o r.m, <<>>, rs))

\* a union member: its type read at the start of the union (a bit-field: the first bits of its unit)
ReadMember(f, E, d, p) ==
  IF f.b = 0 THEN Read(f.t, E, d, p + Max2(f.o, 0), <<>>)
  ELSE LET q == p + Max2(f.o, 0)
           us == SizeOf(UnitType(f.t), E)
       IN IF ~Has(d, q, us) THEN Fail("eof", q)
          ELSE LET n  == DecodeLE(InOrder(Take(d, q, us), E.e), FALSE)
                   lo == IF E.e = "l" THEN 0 ELSE 8 * us - f.b
               IN Good([k |-> IF f.t.k = "enm" THEN "e" ELSE "i", v |-> FromBits(BitsOf(n, lo, f.b))],
                       q + us, UnitBitExt(us, E.e, q, 0, f.b))

\* r.xt: per field <<from, to>> (bit-fields: the storage unit)
ReadFields(T, E, d, p0, L, s) ==
  LET i == Len(s.vs) + 1 IN
  IF i > Len(T.f) THEN s
  ELSE
    LET f  == T.f[i]
        it == L.it[i]
        a  == IF T.a THEN AlignOf(f.t, E) ELSE 1
        fp == IF it.o >= 0 THEN p0 + it.o ELSE p0 + AlignUp(s.p - p0, a)
        bind(v) == IF IntLike(v) /\ f.n # "" THEN Append(s.cx, [n |-> f.n, v |-> v.v]) ELSE s.cx
    IN IF f.b > 0
       THEN LET U  == UnitType(f.t)
                us == SizeOf(U, E)
                up == IF it.nu THEN fp ELSE s.up
                n  == IF Has(d, up, us) THEN DecodeLE(InOrder(Take(d, up, us), E.e), FALSE) ELSE IZero
                lo == IF E.e = "l" THEN it.ub ELSE 8 * us - it.ub - f.b
                v  == [k |-> IF f.t.k = "enm" THEN "e" ELSE "i", v |-> FromBits(BitsOf(n, lo, f.b))]
            IN IF ~Has(d, up, us) THEN [s EXCEPT !.ok = FALSE, !.x = "eof", !.p = up]
               ELSE ReadFields(T, E, d, p0, L,
                      [s EXCEPT !.p = up + us, !.up = up, !.vs = Append(s.vs, v), !.cx = bind(v),
                                !.m = s.m \o UnitBitExt(us, E.e, up, it.ub, f.b),
                                !.xt = Append(s.xt, <<up, up + us>>)])
       ELSE LET r == Read(f.t, E, d, fp, s.cx) IN
            IF ~r.ok THEN [s EXCEPT !.ok = FALSE, !.x = r.x, !.p = r.p]
            ELSE ReadFields(T, E, d, p0, L,
                   [s EXCEPT !.p = r.p, !.vs = Append(s.vs, r.v), !.cx = bind(r.v), !.m = s.m \o r.m,
                             !.xt = Append(s.xt, <<fp, r.p>>)])

\* extents of the fields of a struct value parsed at p
FieldExtents(T, E, d, p) ==
  ReadFields(T, E, d, p, Layout(T, E),
             [ok |-> TRUE, p |-> p, cx |-> <<>>, vs |-> <<>>, m |-> <<>>, x |-> "", up |-> 0, xt |-> <<>>])

\* byte mask of the n bytes from p on, given extents
RECURSIVE MaskSeg(_, _, _)
MaskSeg(m, lo, hi) ==      \* bytes lo..hi-1
  IF hi - lo <= 4 \/ Len(m) <= 2
  THEN TLCEval([i \in 1..(hi - lo) |->
         FoldLeft(LAMBDA acc, t : IF t[1] <= lo + i - 1 /\ lo + i - 1 < t[2] THEN acc | t[3] ELSE acc, 0, m)])
  ELSE LET mid == (lo + hi) \div 2 IN
       MaskSeg(TLCEval(SelectSeq(m, LAMBDA t : t[1] < mid /\ t[2] > lo)), lo, mid)
       \o MaskSeg(TLCEval(SelectSeq(m, LAMBDA t : t[1] < hi /\ t[2] > mid)), mid, hi)
MaskOf(m, p, n) == IF n <= 0 THEN <<>> ELSE MaskSeg(TLCEval(m), p, p + n)
\* position after the last data-carrying byte
DataEnd(m, p) == FoldLeft(LAMBDA acc, t : Max2(acc, t[2]), p, m)
MaskBytes(bs, mask) == [i \in 1..Len(bs) |-> bs[i] & mask[i]]

(* ------------------------------- writing ----------------------------------- *)
\* Dom(T, E, v): "ok" in the domain of the type | "no" must be rejected (a number that does not fit,
\* or a fixed array of the wrong length) | "na" not judged
RECURSIVE Dom(_, _, _)
DomAll(dss) == LET ds == TLCEval(dss) IN
               IF \E i \in 1..Len(ds) : ds[i] = "na" THEN "na"
               ELSE IF \E i \in 1..Len(ds) : ds[i] = "no" THEN "no" ELSE "ok"
Dom(T, E, v) ==
  CASE T.k = "int" -> IF ~IntLike(v) THEN "na" ELSE IF FitsW(v.v, T.s, T.sg) THEN "ok" ELSE "no"
    [] T.k = "enm" -> IF ~IntLike(v) THEN "na" ELSE IF FitsW(v.v, T.b.s, T.b.sg) THEN "ok" ELSE "no"
    [] T.k = "ptr" -> IF ~IntLike(v) THEN "na" ELSE IF FitsW(v.v, E.p.s, E.p.sg) THEN "ok" ELSE "no"
    [] T.k = "flt" -> IF v.k = "f" /\ FloatExact(v.v, T.s) THEN "ok" ELSE "na"
    [] T.k = "chr" -> IF v.k = "c" /\ Len(v.v) = 1 THEN "ok" ELSE "na"
    [] T.k = "wch" -> IF v.k = "w" /\ Len(v.v) = 1 /\ Utf16OK(v.v, 1) THEN "ok" ELSE "na"
    [] T.k = "leb" -> IF ~IntLike(v) THEN "na" ELSE IF IsNeg(v.v) /\ ~T.sg THEN "no" ELSE "ok"
    [] T.k = "vd"  -> "ok"
    [] T.k = "arr" ->
       LET c == ConstLen(T.l, E) IN
       (CASE T.e.k = "chr" -> IF v.k = "c" /\ (c >= 0 => Len(v.v) = c)
                                 /\ (T.l.k = "z" => \A i \in 1..Len(v.v) : v.v[i] # 0) THEN "ok" ELSE "na"
          [] T.e.k = "wch" -> IF v.k = "w" /\ (c >= 0 => Len(v.v) = c) /\ Utf16OK(v.v, 1)
                                 /\ (T.l.k = "z" => \A i \in 1..Len(v.v) : v.v[i] # 0) THEN "ok" ELSE "na"
          [] OTHER ->
             IF v.k # "l" THEN "na"
             ELSE IF c >= 0 /\ Len(v.v) # c THEN (IF SizeOf(T.e, E) >= 0 THEN "no" ELSE "na")
             ELSE IF T.l.k = "z" /\ \E i \in 1..Len(v.v) : ZeroElem(v.v[i]) THEN "na"
             ELSE DomAll([i \in 1..Len(v.v) |-> Dom(T.e, E, v.v[i])]))
    [] T.k = "st" ->
       IF v.k # "s" \/ Len(v.v) # Len(T.f) THEN "na"
       ELSE DomAll([i \in 1..Len(T.f) |->
              IF T.f[i].b > 0 THEN (IF ~IntLike(v.v[i]) THEN "na"
                                    ELSE IF FitsBits(v.v[i].v, T.f[i].b) THEN "ok" ELSE "no")
              ELSE Dom(T.f[i].t, E, v.v[i])])
    [] T.k = "un" -> IF v.k # "u" \/ SizeOf(T, E) < 0 THEN "na"
                     ELSE DomAll([i \in 1..Len(T.f) |->
                            IF T.f[i].b > 0 THEN (IF IntLike(v.v[i]) /\ FitsBits(v.v[i].v, T.f[i].b) THEN "ok" ELSE "na")
                            ELSE Dom(T.f[i].t, E, v.v[i])])

Zeros(n) == [i \in 1..n |-> 0]
PadTo(bs, n) == bs \o Zeros(n - Len(bs))
OrBytes(a, b) == LET n == Max2(Len(a), Len(b)) IN
  [i \in 1..n |-> (IF i <= Len(a) THEN a[i] ELSE 0) | (IF i <= Len(b) THEN b[i] ELSE 0)]

\* Write(T, E, v): the bytes (offsets relative to the start of the value; alignment of nested
\* values is relative to their own start, starts being aligned)
RECURSIVE Write(_, _, _), WriteMember(_, _, _), ZeroOf(_, _)
WriteStruct(T, E, v) ==
  LET L == Layout(T, E)
      step(s, i) ==
        LET f == T.f[i]
            it == L.it[i]
            a == IF T.a THEN AlignOf(f.t, E) ELSE 1
            fp == IF it.o >= 0 THEN it.o ELSE AlignUp(Len(s.b), a)
        IN IF f.b > 0
           THEN LET U == UnitType(f.t)
                    us == SizeOf(U, E)
                    up == IF it.nu THEN fp ELSE s.up
                    base == PadTo(s.b, up + us)
                    sh == IF E.e = "l" THEN it.ub ELSE 8 * us - it.ub - f.b
                    ub == InOrder(EncodeLE(IShl(v.v[i].v, sh), us), E.e)
                IN [b |-> OrBytes(base, Zeros(up) \o ub), up |-> up]
           ELSE [b |-> PadTo(s.b, fp) \o Write(f.t, E, v.v[i]), up |-> 0]
      RECURSIVE go(_, _)
      go(s, i) == IF i > Len(T.f) THEN s.b ELSE go(step(s, i), i + 1)
      body == go([b |-> <<>>, up |-> 0], 1)
  IN IF TailPadded(T) THEN PadTo(body, AlignUp(Len(body), L.al)) ELSE body
WriteMember(f, E, v) ==
  IF f.b = 0 THEN Write(f.t, E, v)
  ELSE LET us == SizeOf(UnitType(f.t), E)
       IN InOrder(EncodeLE(IShl(v.v, IF E.e = "l" THEN 0 ELSE 8 * us - f.b), us), E.e)
Cat(seqs) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, seqs)
Write(T, E, v) ==
  CASE T.k = "int" -> WriteInt(T, E, v.v)
    [] T.k = "enm" -> WriteInt(T.b, E, v.v)
    [] T.k = "ptr" -> WriteInt(E.p, E, v.v)
    [] T.k = "flt" -> InOrder(EncodeFloat(v.v, T.s), E.e)
    [] T.k = "chr" -> v.v
    [] T.k = "wch" -> UnitBytes(v.v, E.e)
    [] T.k = "leb" -> LebBytes(v.v, T.sg)
    [] T.k = "vd"  -> <<>>
    [] T.k = "arr" ->
       (CASE T.e.k = "chr" -> v.v \o (IF T.l.k = "z" THEN <<0>> ELSE <<>>)
          [] T.e.k = "wch" -> UnitBytes(v.v, E.e) \o (IF T.l.k = "z" THEN <<0, 0>> ELSE <<>>)
          [] OTHER -> Cat([i \in 1..Len(v.v) |-> Write(T.e, E, v.v[i])])
                      \o (IF T.l.k = "z" THEN Write(T.e, E, ZeroOf(T.e, E)) ELSE <<>>))
    [] T.k = "st" -> WriteStruct(T, E, v)
    [] T.k = "un" ->
       LET z == SizeOf(T, E)
           parts == TLCEval([i \in 1..Len(T.f) |-> Zeros(Max2(T.f[i].o, 0)) \o WriteMember(T.f[i], E, v.v[i])])
       IN PadTo(FoldLeft(OrBytes, <<>>, parts), z)

ZeroOf(T, E) ==
  CASE T.k \in {"int", "leb"} -> [k |-> "i", v |-> IZero]
    [] T.k = "enm" -> [k |-> "e", v |-> IZero]
    [] T.k = "ptr" -> [k |-> "p", v |-> IZero]
    [] T.k = "flt" -> [k |-> "f", v |-> FZero(0)]
    [] T.k = "chr" -> [k |-> "c", v |-> <<0>>]
    [] T.k = "wch" -> [k |-> "w", v |-> <<0>>]
    [] T.k = "vd"  -> [k |-> "v", v |-> 0]
    [] T.k = "arr" ->
       LET c == ConstLen(T.l, E)
           n == IF c < 0 THEN 0 ELSE c
       IN (CASE T.e.k = "chr" -> [k |-> "c", v |-> Zeros(n)]
             [] T.e.k = "wch" -> [k |-> "w", v |-> Zeros(n)]
             [] OTHER -> [k |-> "l", v |-> TLCEval([i \in 1..n |-> ZeroOf(T.e, E)])])
    [] T.k = "st" -> [k |-> "s", v |-> TLCEval([i \in 1..Len(T.f) |->
                        IF T.f[i].b > 0 THEN [k |-> IF T.f[i].t.k = "enm" THEN "e" ELSE "i", v |-> IZero]
                        ELSE ZeroOf(T.f[i].t, E)])]
    [] T.k = "un" -> [k |-> "u", v |-> TLCEval([i \in 1..Len(T.f) |->
                        IF T.f[i].b > 0 THEN [k |-> IF T.f[i].t.k = "enm" THEN "e" ELSE "i", v |-> IZero]
                        ELSE ZeroOf(T.f[i].t, E)])]

Canonical(m) == ~\E i \in 1..Len(m) : m[i][1] = -1
RECURSIVE HasKind(_, _)
HasKind(T, k) ==
  \/ T.k = k
  \/ T.k = "arr" /\ (HasKind(T.e, k) \/ (k = "eof" /\ T.l.k = "e"))
  \/ T.k \in {"st", "un"} /\ \E i \in 1..Len(T.f) : HasKind(T.f[i].t, k)
=============================================================================
