------------------------------- MODULE MCEnums -------------------------------
(* The declaration machine of an enum or flag: members are appended one at a time,  *)
(* with or without an explicit value.                                                *)
EXTENDS Enums, TLC, Json, FiniteSets
CONSTANTS MaxMem, Emit
VARIABLES fl, ds
vars == <<fl, ds>>
N(v) == [t |-> "n", b |-> 10, d |-> IF v < 10 THEN <<v>> ELSE <<v \div 10, v % 10>>]
O(x) == [t |-> "o", n |-> x]
Id(n) == [t |-> "i", n |-> n]
Names == <<"A", "B", "C", "D", "E">>
Vals == << <<>>, <<N(0)>>, <<N(1)>>, <<N(2)>>, <<N(5)>>, <<N(64)>>, <<Id("A")>>, <<Id("A"), O("+"), N(1)>>,
           <<Id("A"), O("|"), Id("B")>>, <<O("("), N(1), O("<<"), N(3), O(")")>>, <<O("-"), N(1)>>, <<Id("K"), O("-"), N(1)>> >>
Consts == <<[n |-> "K", v |-> FromNat(9)]>>
R == Number(fl, ds, Consts)
Init == fl \in BOOLEAN /\ ds = <<>>
Add(k) == /\ Len(ds) < MaxMem
          /\ (k \in {7, 8} => Len(ds) >= 1) /\ (k = 9 => Len(ds) >= 2) /\ (k = 11 => ~fl)
          /\ ds' = Append(ds, [n |-> Names[Len(ds) + 1], x |-> Vals[k]])
          /\ UNCHANGED fl
          /\ Emit => PrintT("@DEF " \o ToJson([fl |-> fl, ms |-> ds']))
Next == \E k \in 1..Len(Vals) : Add(k)
(* laws *)
LawNumber ==
  /\ R.ok /\ Len(R.ms) = Len(ds)
  /\ \A i \in 1..Len(ds) : ds[i].x = <<>> =>
       LET v == R.ms[i].v IN
       IF i = 1 THEN v = FirstAuto(fl)
       ELSE LET p == R.ms[i - 1].v IN
            IF fl THEN /\ ILt(p, v)
                       /\ IAnd(v, ISub(v, IOne)) = IZero                 \* a power of two
                       /\ ILe(IShr(v, 1), p)                             \* the next one
                       /\ IAnd(v, p) = IZero                             \* a bit of its own
            ELSE v = IAdd(p, IOne)
LawEq == \A a, b, c \in {[c |-> x, v |-> IZero] : x \in 0..2} :
           /\ EnumEq(a, a) /\ EnumEq(a, b) = EnumEq(b, a)
           /\ (a.c # 0 /\ b.c # 0 /\ a.c # b.c) => ~EnumEq(a, b)
=============================================================================
