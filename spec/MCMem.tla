------------------------------- MODULE MCMem ---------------------------------
(* The buffer machine: a union (or a structure around one) is defined, its bytes   *)
(* get an initial content, and its fields are assigned in any order.               *)
EXTENDS Mem, Json, FiniteSets

CONSTANTS Members, Depth, Emit, Wrap, Als, Ens, Inis

I(n, s, sg, al) == [k |-> "int", n |-> n, s |-> s, sg |-> sg, al |-> al]
U8 == I("uint8", 1, FALSE, 1)
I16 == I("int16", 2, TRUE, 2)
U16 == I("uint16", 2, FALSE, 2)
U32 == I("uint32", 4, FALSE, 4)
U24 == I("uint24", 3, FALSE, 4)
E8 == [k |-> "enm", b |-> U8, nm |-> "En8", fl |-> FALSE]
Arr(e, n) == [k |-> "arr", e |-> e, l |-> [k |-> "n", n |-> n]]
F(n, t, b) == [n |-> n, t |-> t, b |-> b, o |-> -1]
St(nm, a, fs) == [k |-> "st", nm |-> nm, a |-> a, f |-> fs]
Un(nm, a, fs) == [k |-> "un", nm |-> nm, a |-> a, f |-> fs]
Kinds(a) == <<
  [t |-> U8, b |-> 0], [t |-> I16, b |-> 0], [t |-> U32, b |-> 0], [t |-> U24, b |-> 0],
  [t |-> [k |-> "chr"], b |-> 0], [t |-> Arr([k |-> "chr"], 3), b |-> 0], [t |-> Arr([k |-> "wch"], 2), b |-> 0],
  [t |-> Arr(U16, 2), b |-> 0], [t |-> E8, b |-> 0], [t |-> [k |-> "flt", s |-> 4], b |-> 0],
  [t |-> [k |-> "ptr", t |-> U8], b |-> 0], [t |-> U16, b |-> 5], [t |-> U8, b |-> 3],
  [t |-> St("Na", a, <<F("p", U8, 0), F("q", U16, 0)>>), b |-> 0],
  [t |-> St("Nb", a, <<F("p", U16, 3), F("q", U16, 7), F("r", U8, 0)>>), b |-> 0],
  [t |-> St("Nc", a, <<F("p", U8, 0), F("q", Un("Nu", a, <<F("x", U8, 0), F("y", U16, 0)>>), 0)>>), b |-> 0],
  [t |-> St("Nd", a, <<F("p", St("Ne", a, <<F("x", U8, 0), F("y", U8, 0)>>), 0), F("q", U8, 0)>>), b |-> 0],
  [t |-> Un("Nv", a, <<F("x", U32, 0), F("y", Arr(U8, 3), 0)>>), b |-> 0],
  [t |-> Arr(St("Na", a, <<F("p", U8, 0), F("q", U16, 0)>>), 2), b |-> 0] >>
NK == Len(Kinds(TRUE))
Names == <<"a", "b", "c", "d">>
UnionOf(seq, a) == Un("U", a, [i \in 1..Len(seq) |-> F(Names[i], Kinds(a)[seq[i]].t, Kinds(a)[seq[i]].b)])
Wrapped(seq, a) == St("W", a, <<F("h", U8, 0), F("u", UnionOf(seq, a), 0), F("t", U16, 0)>>)

Patterns == <<[i \in 1..40 |-> 0], [i \in 1..40 |-> (i * 17) % 256], [i \in 1..40 |-> 165], [i \in 1..40 |-> (i * 31 + 7) % 128]>>

VARIABLES ks, al, en, wr, ini, buf, hist
vars == <<ks, al, en, wr, ini, buf, hist>>
T == IF wr THEN Wrapped(ks, al) ELSE UnionOf(ks, al)
E == [e |-> en, p |-> U16, c |-> <<>>]
Z == SizeOf(T, E)

Init == /\ ks = <<>>
        /\ al \in Als /\ en \in Ens /\ wr \in Wrap /\ ini \in Inis
        /\ buf = <<>> /\ hist = <<>>
AddMember(k) ==
  /\ Len(ks) < Members /\ hist = <<>>
  /\ ks' = Append(ks, k)
  /\ UNCHANGED <<al, en, wr, ini, hist>>
  /\ buf' = SubSeq(Patterns[ini], 1, SizeOf(IF wr THEN Wrapped(ks', al) ELSE UnionOf(ks', al), E))

\* a value of the location that is different from what is there, taken from a pattern
ValueAt(loc, pat) ==
  IF loc.b > 0
  THEN [k |-> "i", v |-> FromBits(BitsOf(Norm(0, SubSeq(pat, 2, 5)), 1, loc.b))]
  ELSE Read(loc.t, E, pat, 1, <<>>).v
Set_(p, j) ==
  LET loc == Loc(T, E, p)
      v == ValueAt(loc, Patterns[j])
  IN /\ Len(hist) < Depth /\ ks # <<>>
     /\ buf' = Assign(T, E, buf, p, v)
     /\ hist' = Append(hist, [p |-> p, v |-> v])
     /\ UNCHANGED <<ks, al, en, wr, ini>>
     /\ (Emit /\ Len(hist') = Depth) =>
          PrintT("@MEM " \o ToJson([t |-> T, e |-> en, a |-> al, b |-> SubSeq(Patterns[ini], 1, Z), h |-> hist']))
Next == (\E k \in 1..NK : AddMember(k)) \/ \E p \in Paths(T) : \E j \in {3, 4} : Set_(p, j)

(* ------------------------------- the laws ---------------------------------- *)
LastA == hist[Len(hist)]
\* the assigned field has the assigned value, through whatever route it is read
LawGet == hist # <<>> => Same(Get(T, E, buf, LastA.p), [LastA.v EXCEPT !.k = Get(T, E, buf, LastA.p).k])
\* every member is what parsing its type from the bytes gives, at any depth
RECURSIVE At(_, _)
At(v, p) == IF p = <<>> THEN v ELSE At(v.v[Head(p)], Tail(p))
LawViews == \A p \in Paths(T) : Same(At(View(T, E, buf).v, p), Get(T, E, buf, p))
\* dumping the view gives the bytes back
LawDump == LET mk == DataMask(T, E) IN
           /\ Dom(T, E, View(T, E, buf).v) = "ok"
           /\ MaskBytes(Write(T, E, View(T, E, buf).v), mk) = MaskBytes(buf, mk)
           /\ Len(buf) = Z
\* consumption and size: the largest member, rounded up
LawSize == (~wr) =>
   LET m == FoldLeft(LAMBDA s, f : Max2(s, SizeOf(f.t, E)), 0, T.f) IN
   /\ Z = AlignUp(m, IF al THEN AlignOf(T, E) ELSE 1)
   /\ View(T, E, buf).p = Z
\* an assignment changes no bit outside the data bits of its location, and is idempotent
LawFrame == [][hist' # <<>> => LET p == LastA'.p
                   mk == LocMask(Loc(T, E, p), E, Z)
               IN /\ \A i \in 1..Z : (buf'[i] & (255 - mk[i])) = (buf[i] & (255 - mk[i]))
                  /\ Assign(T, E, buf', p, LastA'.v) = buf'
                  /\ Len(Free(T, E, Z, p)) = Z
                  /\ \A i \in 1..Z : (Free(T, E, Z, p)[i] & mk[i]) = 0]_vars
Laws == ks # <<>> => LawGet /\ LawViews /\ LawDump /\ LawSize
Spec == Init /\ [][Next]_vars
=============================================================================
