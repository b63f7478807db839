-------------------------------- MODULE Ints --------------------------------
(* Unbounded integers as minimal little-endian two's-complement byte tuples.    *)
(*   n = <<fill, b0, b1, ...>>, fill \in {0, 255}: the infinite sign extension,  *)
(*   no trailing byte equal to fill.  0 = <<0>>, -1 = <<255>>, 255 = <<0,255>>.  *)
(* TLC integers are 32 bit, cstruct integers go up to 128 bits and beyond        *)
(* (LEB128, expressions); in this form the C05 codecs are plain sequence          *)
(* operations (decode = attach the fill, encode = take the first w bytes).        *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, Bitwise

RECURSIVE StripHi(_, _)
StripHi(bs, fill) ==
  IF Len(bs) > 0 /\ bs[Len(bs)] = fill THEN StripHi(SubSeq(bs, 1, Len(bs) - 1), fill) ELSE bs

Norm(fill, bs) == <<fill>> \o StripHi(bs, fill)

IZero == <<0>>
IOne  == <<0, 1>>
IsNeg(n) == n[1] = 255
IsZero(n) == n = <<0>>
NB(n) == Len(n) - 1                         \* number of explicit bytes
BAt(n, i) == IF i < Len(n) - 1 THEN n[i + 2] ELSE n[1]     \* i-th byte, 0-based

Low(n, w) == [i \in 1..w |-> BAt(n, i - 1)]

RECURSIVE NatBytes(_)
NatBytes(k) == IF k = 0 THEN <<>> ELSE <<k % 256>> \o NatBytes(k \div 256)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)     \* native, k <= 30

INot(n) == <<255 - n[1]>> \o [i \in 1..NB(n) |-> 255 - n[i + 1]]

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

\* native (|k| < 2^31) -> Int
FromNat(k) == <<0>> \o NatBytes(k)
FromInt(k) == IF k >= 0 THEN FromNat(k) ELSE INot(FromNat(-(k + 1)))

\* Small = convertible to a native integer (strictly below 2^24 in magnitude)
Small(n) == NB(n) <= 3
RECURSIVE ValBytes(_, _)
ValBytes(bs, i) == IF i > Len(bs) THEN 0 ELSE bs[i] + 256 * ValBytes(bs, i + 1)
ToInt(n) == IF IsNeg(n) THEN -1 - ValBytes(Tail(INot(n)), 1) ELSE ValBytes(Tail(n), 1)

\* a + b + c0, byte-wise over k bytes, with sign fill deduced from an extra byte
RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, i, k, c) ==
  IF i >= k THEN <<>>
  ELSE LET s == BAt(a, i) + BAt(b, i) + c
       IN <<s % 256>> \o AddFrom(a, b, i + 1, k, s \div 256)
AddC(a, b, c) ==
  LET k  == Max2(NB(a), NB(b)) + 2
      r  == AddFrom(a, b, 0, k, c)
      f  == IF r[k] >= 128 THEN 255 ELSE 0
  IN Norm(f, r)
IAdd(a, b) == IF Small(a) /\ Small(b) THEN FromInt(ToInt(a) + ToInt(b)) ELSE AddC(a, b, 0)
INeg(n) == AddC(INot(n), IZero, 1)
ISub(a, b) == IF Small(a) /\ Small(b) THEN FromInt(ToInt(a) - ToInt(b)) ELSE AddC(a, INot(b), 1)
IAbs(n) == IF IsNeg(n) THEN INeg(n) ELSE n

ILt(a, b) == IF Small(a) /\ Small(b) THEN ToInt(a) < ToInt(b) ELSE IsNeg(ISub(a, b))
ILe(a, b) == a = b \/ ILt(a, b)

BitOp(Op(_, _), a, b) ==
  LET k == Max2(NB(a), NB(b))
  IN Norm(Op(a[1], b[1]), [i \in 1..k |-> Op(BAt(a, i - 1), BAt(b, i - 1))])
BAnd(x, y) == x & y
BOr(x, y)  == x | y
BXor(x, y) == x ^^ y
IAnd(a, b) == BitOp(BAnd, a, b)
IOr(a, b)  == BitOp(BOr, a, b)
IXor(a, b) == BitOp(BXor, a, b)

\* shifts by a native k >= 0
IShl(n, k) ==
  LET by == k \div 8
      bi == k % 8
      m  == Pow2(bi)
      body == [i \in 1..(NB(n) + 1) |->
                 ((BAt(n, i - 1) * m) % 256) + (IF i = 1 THEN 0 ELSE (BAt(n, i - 2) * m) \div 256)]
  IN Norm(n[1], [i \in 1..by |-> 0] \o body)
IShr(n, k) ==
  LET by == k \div 8
      bi == k % 8
      m  == Pow2(bi)
      cnt == Max2(NB(n) - by, 0)
  IN Norm(n[1], [i \in 1..cnt |->
       (BAt(n, by + i - 1) \div m) + ((BAt(n, by + i) * (256 \div m)) % 256)])

\* non-negative multiplication: schoolbook on bytes
RECURSIVE MulByte(_, _, _, _)
MulByte(n, d, i, c) ==       \* non-negative n, times byte d, plus carry
  IF i >= NB(n) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == BAt(n, i) * d + c IN <<s % 256>> \o MulByte(n, d, i + 1, s \div 256)
RECURSIVE MulNN(_, _, _)
MulNN(a, b, i) ==
  IF i >= NB(b) THEN IZero
  ELSE IAdd(Norm(0, [j \in 1..i |-> 0] \o MulByte(a, BAt(b, i), 0, 0)), MulNN(a, b, i + 1))
IMul(a, b) ==
  LET p == MulNN(IAbs(a), IAbs(b), 0)
  IN IF IsNeg(a) = IsNeg(b) THEN p ELSE INeg(p)

RECURSIVE BitLen8(_)
BitLen8(k) == IF k = 0 THEN 0 ELSE 1 + BitLen8(k \div 2)
\* number of bits of a non-negative integer
IBitLen(n) == IF NB(n) = 0 THEN 0 ELSE 8 * (NB(n) - 1) + BitLen8(n[Len(n)])

\* schoolbook division of non-negative a by positive b: <<quotient, remainder>>
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, i, q, r) ==
  IF i < 0 THEN <<q, r>>
  ELSE LET bit == (BAt(a, i \div 8) \div Pow2(i % 8)) % 2
           r2  == IOr(IShl(r, 1), FromNat(bit))
       IN IF ILe(b, r2) THEN DivFrom(a, b, i - 1, IOr(IShl(q, 1), IOne), ISub(r2, b))
          ELSE DivFrom(a, b, i - 1, IShl(q, 1), r2)
IDivMod(a, b) ==
  IF Small(a) /\ Small(b)
  THEN <<FromNat(ToInt(a) \div ToInt(b)), FromNat(ToInt(a) % ToInt(b))>>
  ELSE DivFrom(a, b, IBitLen(a) - 1, IZero, IZero)

\* ---- fixed width -----------------------------------------------------------
DecodeLE(bs, signed) ==
  Norm(IF signed /\ Len(bs) > 0 /\ bs[Len(bs)] >= 128 THEN 255 ELSE 0, bs)
FitsW(n, w, signed) ==
  IF signed
  THEN NB(n) < w \/ (NB(n) = w /\ w > 0 /\ ((BAt(n, w - 1) >= 128) <=> IsNeg(n))) \/ (w = 0 /\ NB(n) = 0)
  ELSE ~IsNeg(n) /\ NB(n) <= w
EncodeLE(n, w) == Low(n, w)

\* ---- bits --------------------------------------------------------------------
BitOf(n, i) == (BAt(n, i \div 8) \div Pow2(i % 8)) % 2
\* integer value of a little-endian bit sequence
RECURSIVE PackBits(_)
PackBits(bits) ==
  IF bits = <<>> THEN <<>>
  ELSE LET k == Min2(8, Len(bits))
           RECURSIVE S(_)
           S(i) == IF i > k THEN 0 ELSE bits[i] + 2 * S(i + 1)
       IN <<S(1)>> \o PackBits(SubSeq(bits, k + 1, Len(bits)))
FromBits(bits) == Norm(0, PackBits(bits))
BitsOf(n, from, cnt) == [i \in 1..cnt |-> BitOf(n, from + i - 1)]
FitsBits(n, b) == ~IsNeg(n) /\ IBitLen(n) <= b
=============================================================================
