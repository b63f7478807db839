------------------------------- MODULE MCDefs --------------------------------
(* The definition-building machine: a structure definition grows field by field   *)
(* over a fixed alphabet of field kinds.  Exhaustive to MaxFields.                  *)
(* - model checking: the laws the properties need hold of the specified codec in    *)
(*   every reachable definition, over a family of inputs                            *)
(* - scenario generation (Emit = TRUE): every reachable definition is printed and   *)
(*   executed on the real library                                                   *)
EXTENDS Codec, TLC, Json, FiniteSets

CONSTANTS MaxFields, Emit

I(n, s, sg, al) == [k |-> "int", n |-> n, s |-> s, sg |-> sg, al |-> al]
U8 == I("uint8", 1, FALSE, 1)
I8 == I("int8", 1, TRUE, 1)
U16 == I("uint16", 2, FALSE, 2)
I16 == I("int16", 2, TRUE, 2)
U32 == I("uint32", 4, FALSE, 4)
I64 == I("int64", 8, TRUE, 8)
I24 == I("int24", 3, TRUE, 4)
U48 == I("uint48", 6, FALSE, 8)
E8 == [k |-> "enm", b |-> U8, nm |-> "En8", fl |-> FALSE]
F16 == [k |-> "enm", b |-> U16, nm |-> "Fl16", fl |-> TRUE]
Chr == [k |-> "chr"]
Wch == [k |-> "wch"]
P == [k |-> "ptr", t |-> U8]
Arr(e, l) == [k |-> "arr", e |-> e, l |-> l]
LN(n) == [k |-> "n", n |-> n]
LZ == [k |-> "z"]
F(n, t, b) == [n |-> n, t |-> t, b |-> b, o |-> -1]
Tk(n) == [t |-> "i", n |-> n]

\* field kinds; "arrx" refers to the first field (if that is an 8-bit integer)
Kinds == <<
  [t |-> U8, b |-> 0], [t |-> I16, b |-> 0], [t |-> U32, b |-> 0], [t |-> I64, b |-> 0],
  [t |-> I24, b |-> 0], [t |-> U48, b |-> 0], [t |-> Chr, b |-> 0], [t |-> Wch, b |-> 0],
  [t |-> E8, b |-> 0], [t |-> F16, b |-> 0], [t |-> P, b |-> 0],
  [t |-> [k |-> "flt", s |-> 4], b |-> 0],
  [t |-> Arr(U16, LN(2)), b |-> 0], [t |-> Arr(Chr, LN(3)), b |-> 0], [t |-> Arr(Wch, LN(2)), b |-> 0],
  [t |-> Arr(I24, LN(2)), b |-> 0], [t |-> Arr(E8, LN(3)), b |-> 0], [t |-> Arr(P, LN(2)), b |-> 0],
  [t |-> Arr(Arr(U16, LN(2)), LN(2)), b |-> 0],
  [t |-> Arr(Chr, LZ), b |-> 0], [t |-> Arr(U16, LZ), b |-> 0], [t |-> Arr(Wch, LZ), b |-> 0],
  [t |-> [k |-> "leb", sg |-> FALSE], b |-> 0], [t |-> [k |-> "leb", sg |-> TRUE], b |-> 0],
  [t |-> U8, b |-> 3], [t |-> U8, b |-> 5], [t |-> U16, b |-> 4], [t |-> U32, b |-> 9], [t |-> E8, b |-> 2],
  [t |-> I16, b |-> 12], [t |-> I24, b |-> 7],
  [t |-> [k |-> "arrx"], b |-> 0], [t |-> [k |-> "arrs"], b |-> 0],
  [t |-> [k |-> "nst"], b |-> 0], [t |-> [k |-> "nsta"], b |-> 0], [t |-> [k |-> "nun"], b |-> 0],
  [t |-> [k |-> "nbit"], b |-> 0] >>

VARIABLES fs, al, en
vars == <<fs, al, en>>

Nst(a)  == [k |-> "st", nm |-> "Nst", a |-> a, f |-> <<F("p", U8, 0), F("q", U32, 0)>>]
Nun(a)  == [k |-> "un", nm |-> "Nun", a |-> a, f |-> <<F("p", Arr(U8, LN(3)), 0), F("q", U16, 0)>>]
Nbit(a) == [k |-> "st", nm |-> "Nbit", a |-> a, f |-> <<F("p", U16, 3), F("q", U16, 13)>>]
\* resolve the abstract kind at position i
KindAt(i, seq, a) ==
  LET kd == Kinds[seq[i]] IN
  CASE kd.t.k = "arrx" -> Arr(U16, [k |-> "x", x |-> <<Tk("f1")>>, c |-> FALSE])
    [] kd.t.k = "arrs" -> Arr(Nst(a), [k |-> "x", x |-> <<Tk("f1"), [t |-> "o", n |-> "-"], [t |-> "n", b |-> 10, d |-> <<1>>]>>, c |-> FALSE])
    [] kd.t.k = "nst"  -> Nst(a)
    [] kd.t.k = "nsta" -> Arr(Nst(a), LN(2))
    [] kd.t.k = "nun"  -> Nun(a)
    [] kd.t.k = "nbit" -> Nbit(a)
    [] OTHER -> kd.t
Needs1(k) == Kinds[k].t.k \in {"arrx", "arrs"}
OkSeq(seq) == \A i \in 1..Len(seq) : Needs1(seq[i]) => (i > 1 /\ Kinds[seq[1]].t = U8 /\ Kinds[seq[1]].b = 0)
Names == <<"f1", "f2", "f3", "f4", "f5">>
TypeOf(seq, a) == [k |-> "st", nm |-> "T", a |-> a,
                   f |-> [i \in 1..Len(seq) |-> F(Names[i], KindAt(i, seq, a), Kinds[seq[i]].b)]]
T == TypeOf(fs, al)
E == [e |-> en, p |-> U16, c |-> <<>>]
Valid == DefOK(T, E)

Init == fs = <<>> /\ al \in BOOLEAN /\ en \in {"l", "b"}
AddField(k) ==
  /\ Len(fs) < MaxFields
  /\ OkSeq(Append(fs, k))
  /\ fs' = Append(fs, k)
  /\ UNCHANGED <<al, en>>
  /\ (Emit /\ en = "l") => PrintT("@DEF " \o ToJson([t |-> TypeOf(fs', al), ok |-> DefOK(TypeOf(fs', al), E)]))
Next == \E k \in 1..Len(Kinds) : AddField(k)

(* ----------------------------- input family -------------------------------- *)
N == 72
Ramp    == [i \in 1..N |-> (i * 7) % 256]
Small1  == [i \in 1..N |-> (i % 4)]
Ones    == [i \in 1..N |-> 1]
HighB   == [i \in 1..N |-> IF i % 5 = 0 THEN 0 ELSE 128 + (i % 64)]
Count2  == [i \in 1..N |-> IF i = 1 THEN 2 ELSE IF i % 9 > 6 THEN 0 ELSE (i * 37) % 251]
Inputs  == {Ramp, Small1, Ones, HighB, Count2}
Rd(d, p) == Read(T, E, d, p, <<>>)

(* ------------------------------- the laws ---------------------------------- *)
\* C04: offsets aligned, increasing, no overlap, no gap beyond alignment; one size everywhere
LawLayout ==
  Valid =>
  LET L == Layout(T, E)  z == SizeOf(T, E) IN
  /\ \A i \in 1..Len(fs) :
       LET o == L.it[i].o IN
       o >= 0 =>
         /\ al => o % AlignOf(T.f[i].t, E) = 0
         /\ i = 1 => o = 0
  /\ (z >= 0 /\ al) => z % AlignOf(T, E) = 0
  /\ z >= 0 => \A d \in Inputs : LET r == Rd(d, 0) IN r.ok => r.p = z
  /\ z >= 0 => \A d \in Inputs : LET r == Rd(d, 0) IN
        (r.ok /\ Dom(T, E, r.v) = "ok") => Len(Write(T, E, r.v)) = z
\* C01 / C02
LawRoundTrip ==
  Valid => \A d \in Inputs :
    LET r == Rd(d, 0) IN
    (r.ok /\ Dom(T, E, r.v) = "ok") =>
      LET w == Write(T, E, r.v)
          r2 == Read(T, E, w, 0, <<>>)
          canon == Canonical(r.m)
      IN /\ r2.ok /\ Same(r2.v, r.v) /\ r2.p = Len(w)
         /\ canon => LET mk == MaskOf(r.m, 0, r.p) IN
                     /\ Len(w) = r.p
                     /\ MaskBytes(w, mk) = MaskBytes(SubSeq(d, 1, r.p), mk)
                     /\ MaskBytes(w, mk) = w
\* C08: every cut
LawCut ==
  Valid => \A d \in Inputs :
    LET r == Rd(d, 0)  end == DataEnd(r.m, 0) IN
    r.ok => \A n \in 0..Min2(r.p, N) :
      LET c == Read(T, E, SubSeq(d, 1, n), 0, <<>>) IN
      /\ n < end => (~c.ok /\ c.x = "eof")
      /\ c.ok => Same(c.v, r.v)
\* C09: position independence, nothing outside the extent matters
LawPos ==
  Valid => \A d \in {Ramp, Count2} :
    LET r == Rd(d, 0) IN
    r.ok => \A p \in {8, 24} :
      LET pre == [i \in 1..p |-> 171]
          dd == pre \o SubSeq(d, 1, Min2(r.p, N)) \o Zeros(Max2(r.p - N, 0)) \o <<205, 205, 205>>
          r2 == Read(T, E, dd, p, <<>>)
      IN r2.ok /\ Same(r2.v, r.v) /\ r2.p = p + r.p
\* C06: units of bit-fields: fields of a unit are disjoint, in range, and cover exactly the declared bits
LawBits ==
  Valid =>
  LET L == Layout(T, E) IN
  \A i, j \in 1..Len(fs) :
    (i < j /\ T.f[i].b > 0 /\ T.f[j].b > 0 /\ L.it[i].o = L.it[j].o /\ L.it[i].o >= 0
       /\ \A k \in (i + 1)..j : ~L.it[k].nu)
    => L.it[j].ub >= L.it[i].ub + T.f[i].b
       /\ L.it[j].ub + T.f[j].b <= 8 * SizeOf(UnitType(T.f[j].t), E)
Laws == LawLayout /\ LawRoundTrip /\ LawPos /\ LawBits
=============================================================================
