------------------------------ MODULE MCScalars ------------------------------
(* Scalar encodings under a byte order that changes (C05).  State: the byte order   *)
(* register of a cstruct object, a buffer, and the byte order it was written in.    *)
(* Actions: switch, write a value, put raw bytes there.  Invariants: reading is the  *)
(* inverse of writing, the two byte orders are mirror images, LEB128 is minimal.     *)
EXTENDS Codec, TLC, Json
CONSTANTS MaxH, Emit

I(n, s, sg) == [k |-> "int", n |-> n, s |-> s, sg |-> sg, al |-> s]
Types == << I("int8", 1, TRUE), I("uint8", 1, FALSE), I("int16", 2, TRUE), I("uint16", 2, FALSE), I("int24", 3, TRUE), I("uint24", 3, FALSE),
            I("int32", 4, TRUE), I("uint32", 4, FALSE), I("int48", 6, TRUE), I("uint64", 8, FALSE), I("int128", 16, TRUE),
            [k |-> "flt", s |-> 2], [k |-> "flt", s |-> 4], [k |-> "flt", s |-> 8], [k |-> "chr"], [k |-> "wch"],
            [k |-> "leb", sg |-> FALSE], [k |-> "leb", sg |-> TRUE],
            [k |-> "arr", e |-> I("int16", 2, TRUE), l |-> [k |-> "n", n |-> 2]],
            [k |-> "arr", e |-> I("uint24", 3, FALSE), l |-> [k |-> "n", n |-> 2]],
            [k |-> "st", nm |-> "S", a |-> FALSE, f |-> <<[n |-> "a", t |-> I("uint16", 2, FALSE), b |-> 4, o |-> -1],
                                                          [n |-> "b", t |-> I("uint16", 2, FALSE), b |-> 12, o |-> -1],
                                                          [n |-> "c", t |-> I("int32", 4, TRUE), b |-> 0, o |-> -1],
                                                          [n |-> "d", t |-> I("int24", 3, TRUE), b |-> 7, o |-> -1]>>] >>
Env(e) == [e |-> e, p |-> I("uint32", 4, FALSE), c |-> <<>>]
Nums == {FromInt(x) : x \in {0, 1, -1, 63, 64, 127, 128, 255, 256, -64, -65, -128, -129, 300, 32767, 32768, 65535, 65536, -32768, -32769,
                             8388607, 8388608, 16777215, 16777216, 70000, 2147483647}}
        \cup {IShl(FromInt(1), 31), IShl(FromInt(1), 32), IShl(FromInt(1), 63), IShl(FromInt(1), 64), INeg(IShl(FromInt(1), 31)),
              IShl(FromInt(1), 127), INeg(IShl(FromInt(1), 127)), IShl(FromInt(5), 40)}
NumsL == << 0, 1, -1, 127, 128, -129, 65535, 8388608, 65536 >>
Vs(T) == CASE T.k \in {"int", "leb"} -> {[k |-> "i", v |-> n] : n \in Nums}
           [] T.k = "flt" -> {[k |-> "f", v |-> x] : x \in {FZero(0), FZero(1), FInf(0), FInf(1), [c |-> "f", s |-> 0, m |-> <<1>>, e |-> 0],
                                [c |-> "f", s |-> 1, m |-> <<1, 1>>, e |-> -1], [c |-> "f", s |-> 0, m |-> <<1, 0, 1>>, e |-> 3]}}
           [] T.k = "chr" -> {[k |-> "c", v |-> <<x>>] : x \in {0, 65, 128, 255}}
           [] T.k = "wch" -> {[k |-> "w", v |-> <<x>>] : x \in {0, 65, 256, 16640, 65535, 8364}}
           [] T.k = "arr" -> {[k |-> "l", v |-> <<[k |-> "i", v |-> FromInt(NumsL[i])], [k |-> "i", v |-> FromInt(NumsL[j])]>>] : i, j \in 1..Len(NumsL)}
           [] T.k = "st" -> {[k |-> "s", v |-> <<[k |-> "i", v |-> FromInt(a)], [k |-> "i", v |-> FromInt(b)], [k |-> "i", v |-> FromInt(c)],
                                                 [k |-> "i", v |-> FromInt(5)]>>] : a \in {0, 9, 15, 16}, b \in {0, 291, 4095, -1}, c \in {-2, 70000}}
Raw == LET B == {0, 1, 62, 127, 128, 192, 216, 255} IN
       {<<x>> : x \in 0..255} \cup {<<x, y>> : x, y \in B} \cup {<<x, y, z>> : x, y, z \in {0, 127, 128, 255}}
       \cup {[i \in 1..16 |-> (i * m) % 256] : m \in {1, 17, 37, 101, 255}}

VARIABLES ty, e, buf, we, val, h
vars == <<ty, e, buf, we, val, h>>
T == Types[ty]
NoV == [k |-> "v", v |-> 0]
Init == ty \in 1..Len(Types) /\ e \in {"l", "b"} /\ buf = <<>> /\ we = "?" /\ val = NoV /\ h = <<>>
Log(x) == IF Emit THEN Append(h, x) ELSE <<>>
Switch == e' = (IF e = "l" THEN "b" ELSE "l") /\ UNCHANGED <<ty, buf, we, val>> /\ h' = h
Write_(v) == LET d == Dom(T, Env(e), v) IN
             /\ IF d = "ok" THEN buf' = Write(T, Env(e), v) /\ we' = e /\ val' = v ELSE UNCHANGED <<buf, we, val>>
             /\ UNCHANGED <<ty, e>> /\ h' = Log(<<"d", e, v>>)
Put(bs) == buf' = bs /\ we' = "?" /\ val' = NoV /\ UNCHANGED <<ty, e>> /\ h' = Log(<<"p", e, bs>>)
Next == \/ Switch
        \/ Len(h) < MaxH /\ (\/ \E v \in Vs(T) : Write_(v)
                             \/ \E b \in Raw : Put(b))
Bound == ~Emit \/ Len(h) <= MaxH

(* laws *)
LawInverse == we # "?" => LET r == Read(T, Env(we), buf, 0, <<>>) IN
                 r.ok /\ r.p = Len(buf) /\ (HasNaN(val) \/ r.v = val)
Mirror == {"int", "flt", "chr", "wch"}
LawMirror == (T.k \in Mirror /\ Len(buf) = SizeOf(T, Env("l"))) =>
                LET a == Read(T, Env("l"), buf, 0, <<>>)
                    b == Read(T, Env("b"), Reverse(buf), 0, <<>>) IN a.ok = b.ok /\ (a.ok => a.v = b.v)
LawLeb == T.k = "leb" =>
            /\ Read(T, Env("l"), buf, 0, <<>>) = Read(T, Env("b"), buf, 0, <<>>)
            /\ LET r == Read(T, Env("l"), buf, 0, <<>>) IN
               r.ok => LET w == Write(T, Env("l"), r.v) IN
                         /\ Len(w) <= r.p                                          \* minimal
                         /\ Read(T, Env("l"), w, 0, <<>>).v = r.v
                         /\ (Len(w) = r.p => w = SubSeq(buf, 1, r.p))              \* and unique
LawReread == LET r == Read(T, Env(e), buf, 0, <<>>) IN       \* writing what was read gives the bytes back
               (r.ok /\ ~HasNaN(r.v) /\ T.k # "leb" /\ T.k # "st") => Write(T, Env(e), r.v) = SubSeq(buf, 1, r.p)
LawEmit == (Emit /\ Len(h) = MaxH) => PrintT("@SCA " \o ToJson([ty |-> ty, h |-> h]))
=============================================================================
