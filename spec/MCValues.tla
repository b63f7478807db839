------------------------------ MODULE MCValues -------------------------------
(* Two instances of a structure, each constructed and then assigned field by field *)
(* in any order: equality, truth and bytes stay consistent with each other.         *)
EXTENDS Values, Json, FiniteSets

CONSTANTS MaxF, Steps

I(n, s, sg, al) == [k |-> "int", n |-> n, s |-> s, sg |-> sg, al |-> al]
U8 == I("uint8", 1, FALSE, 1)
I16 == I("int16", 2, TRUE, 2)
F(n, t, b) == [n |-> n, t |-> t, b |-> b, o |-> -1]
Na(a) == [k |-> "st", a |-> a, f |-> <<F("p", U8, 0), F("q", I16, 0)>>]
Kinds(a) == <<[t |-> U8, b |-> 0], [t |-> I16, b |-> 0], [t |-> U8, b |-> 3],
              [t |-> [k |-> "arr", e |-> [k |-> "chr"], l |-> [k |-> "n", n |-> 2]], b |-> 0],
              [t |-> [k |-> "arr", e |-> U8, l |-> [k |-> "n", n |-> 2]], b |-> 0],
              [t |-> Na(a), b |-> 0],
              [t |-> [k |-> "un", a |-> a, f |-> <<F("x", U8, 0), F("y", I16, 0)>>], b |-> 0]>>
Pats == <<[i \in 1..16 |-> 0], [i \in 1..16 |-> 1], [i \in 1..16 |-> IF i = 2 THEN 7 ELSE 0]>>

VARIABLES ks, al, en, x, y, n
vars == <<ks, al, en, x, y, n>>
T == [k |-> "st", a |-> al, f |-> [i \in 1..Len(ks) |-> F("f", Kinds(al)[ks[i]].t, Kinds(al)[ks[i]].b)]]
E == [e |-> en, p |-> I16, c |-> <<>>]
Z == SizeOf(T, E)
Init == ks = <<>> /\ al \in BOOLEAN /\ en \in {"l", "b"} /\ x = <<>> /\ y = <<>> /\ n = 0
Add(k) == /\ n = 0 /\ Len(ks) < MaxF
          /\ ks' = Append(ks, k)
          /\ LET z == SizeOf([k |-> "st", a |-> al, f |-> [i \in 1..Len(ks') |-> F("f", Kinds(al)[ks'[i]].t, Kinds(al)[ks'[i]].b)]], E)
             IN x' = Zeros(z) /\ y' = Zeros(z)
          /\ UNCHANGED <<al, en, n>>
Val(loc, pat) == IF loc.b > 0 THEN [k |-> "i", v |-> FromBits(BitsOf(Norm(0, SubSeq(pat, 1, 2)), 0, loc.b))]
                 ELSE Read(loc.t, E, pat, 0, <<>>).v
Set_(who, p, j) ==
  LET v == Val(Loc(T, E, p), Pats[j]) IN
  /\ n < Steps
  /\ n' = n + 1
  /\ IF who = 1 THEN x' = Assign(T, E, x, p, v) /\ y' = y ELSE y' = Assign(T, E, y, p, v) /\ x' = x
  /\ UNCHANGED <<ks, al, en>>
Next == (\E k \in 1..Len(Kinds(al)) : Add(k)) \/ \E who \in 1..2 : \E p \in Paths(T) : \E j \in 1..3 : Set_(who, p, j)
VX == View(T, E, x).v
VY == View(T, E, y).v
\* equal exactly when no field differs; then (no floats here) exactly when the data bytes are equal
LawEq == ks # <<>> =>
         LET a == VX  b == VY IN
         /\ VEq(a, b) = (MaskBytes(x, DataMask(T, E)) = MaskBytes(y, DataMask(T, E)))
         /\ VEq(a, b) = VEq(b, a) /\ VEq(a, a)
         /\ VEq(a, b) = (\A i \in 1..Len(ks) : VEq(a.v[i], b.v[i]))
LawTruth == ks # <<>> => LET a == VX IN
         /\ Truthy(a) = (\E i \in 1..Len(ks) : Truthy(a.v[i]))
         /\ (VEq(a, VY) => Truthy(a) = Truthy(VY))
\* instances are independent: assigning one leaves the other alone
LawApart == [][ (n' = n + 1) => (x' = x \/ y' = y) ]_vars
\* constructing from values = assigning those fields on a default instance, in any order
LawOrder == [][ (n' = n + 1 /\ x' # x) =>
               \A q \in Paths(T) : \A j \in {2} :
                 LET v == Val(Loc(T, E, q), Pats[j]) IN Assign(T, E, Assign(T, E, x, q, v), q, v) = Assign(T, E, x, q, v) ]_vars
Laws == LawEq /\ LawTruth
Spec == Init /\ [][Next]_vars
=============================================================================
