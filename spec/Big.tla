------------------------------- MODULE Big -------------------------------
(* Unbounded integers for TLC (whose own integers are 32 bit).             *)
(* A natural is a big-endian byte sequence without leading zero; 0 = <<>>. *)
(* An integer is [s |-> 0 or 1 (negative), m |-> natural]; zero has s = 0. *)
EXTENDS Integers, Sequences

Byte == 0..255
Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16
             [] k = 5 -> 32 [] k = 6 -> 64 [] k = 7 -> 128 [] k = 8 -> 256
             [] OTHER -> 2 ^ k

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE StripFrom(_, _)
StripFrom(m, i) == IF i > Len(m) THEN <<>>
                   ELSE IF m[i] # 0 THEN SubSeq(m, i, Len(m)) ELSE StripFrom(m, i + 1)
Strip(m) == StripFrom(m, 1)

(* digit of weight 256^(j-1), j = 1 is the least significant byte *)
Dig(m, j) == IF j > Len(m) THEN 0 ELSE m[Len(m) - j + 1]

NatOf(i) == Strip(<<i \div 16777216, (i \div 65536) % 256, (i \div 256) % 256, i % 256>>)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i > Len(a) THEN 0
                    ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i + 1)
NatCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpFrom(a, b, 1)

RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, j, c, acc) ==
  IF j > Len(a) /\ j > Len(b) THEN (IF c = 0 THEN acc ELSE <<c>> \o acc)
  ELSE LET x == Dig(a, j) + Dig(b, j) + c IN AddFrom(a, b, j + 1, x \div 256, <<x % 256>> \o acc)
NatAdd(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE AddFrom(a, b, 1, 0, <<>>)

RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(a, b, j, c, acc) ==
  IF j > Len(a) THEN acc
  ELSE LET x == Dig(a, j) - Dig(b, j) - c
       IN IF x < 0 THEN SubFrom(a, b, j + 1, 1, <<x + 256>> \o acc)
                   ELSE SubFrom(a, b, j + 1, 0, <<x>> \o acc)
(* requires a >= b *)
NatSub(a, b) == IF b = <<>> THEN a ELSE Strip(SubFrom(a, b, 1, 0, <<>>))

IsSmall(m) == Len(m) <= 3
Small(m) == Dig(m, 1) + 256 * Dig(m, 2) + 65536 * Dig(m, 3)      \* only for IsSmall(m)

BI(i) == IF i < 0 THEN [s |-> 1, m |-> NatOf(-i)] ELSE [s |-> 0, m |-> NatOf(i)]
Mk(s, m) == [s |-> IF m = <<>> THEN 0 ELSE s, m |-> m]
IntNeg(a) == Mk(1 - a.s, a.m)
IntCmp(a, b) == IF a.s # b.s THEN (IF a.s = 1 THEN -1 ELSE 1)
                ELSE IF a.s = 0 THEN NatCmp(a.m, b.m) ELSE NatCmp(b.m, a.m)
IntAdd(a, b) == IF a.s = b.s THEN Mk(a.s, NatAdd(a.m, b.m))
                ELSE IF NatCmp(a.m, b.m) >= 0 THEN Mk(a.s, NatSub(a.m, b.m))
                                              ELSE Mk(b.s, NatSub(b.m, a.m))
IntSub(a, b) == IntAdd(a, IntNeg(b))
IntLe(a, b) == IntCmp(a, b) <= 0

OctLen(m) == Max2(1, Len(m))                       \* X.691 11.3.6: minimum octets, at least one
ByteBits(x) == IF x >= 128 THEN 8 ELSE IF x >= 64 THEN 7 ELSE IF x >= 32 THEN 6 ELSE IF x >= 16 THEN 5
               ELSE IF x >= 8 THEN 4 ELSE IF x >= 4 THEN 3 ELSE IF x >= 2 THEN 2 ELSE x
BitLen(m) == IF m = <<>> THEN 0 ELSE 8 * (Len(m) - 1) + ByteBits(m[1])

PadTo(m, k) == [i \in 1..k |-> Dig(m, k - i + 1)]  \* k bytes, big endian
Compl(m) == [i \in 1..Len(m) |-> 255 - m[i]]

(* X.691 11.4 two's complement *)
TwosLen(a) == LET n == IF a.s = 0 THEN a.m ELSE NatSub(a.m, <<1>>)
              IN IF n = <<>> THEN 1 ELSE Len(n) + (IF n[1] >= 128 THEN 1 ELSE 0)
TwosBytes(a) == LET k == TwosLen(a)
                IN IF a.s = 0 THEN PadTo(a.m, k) ELSE Compl(PadTo(NatSub(a.m, <<1>>), k))
FromTwos(b) == IF b[1] < 128 THEN Mk(0, Strip(b)) ELSE Mk(1, NatAdd(Strip(Compl(b)), <<1>>))

(* bits of a byte sequence, most significant first *)
BitAt(bs, i) == (bs[((i - 1) \div 8) + 1] \div Pow2(7 - ((i - 1) % 8))) % 2     \* i from 1
BitsOf(bs) == [i \in 1..(8 * Len(bs)) |-> BitAt(bs, i)]
(* the low w bits of natural m *)
NatBits(m, w) == [i \in 1..w |-> LET q == w - i IN (Dig(m, (q \div 8) + 1) \div Pow2(q % 8)) % 2]
(* small natural to w bits (w <= 24) *)
SBits(n, w) == [i \in 1..w |-> (n \div (2 ^ (w - i))) % 2]
(* whole bytes from bits; Len(b) % 8 = 0 *)
BytesOf(b) == [i \in 1..(Len(b) \div 8) |->
                 128 * b[8*i-7] + 64 * b[8*i-6] + 32 * b[8*i-5] + 16 * b[8*i-4]
                 + 8 * b[8*i-3] + 4 * b[8*i-2] + 2 * b[8*i-1] + b[8*i]]
(* natural number written by bits b *)
NatFromBits(b) == LET k == (8 - (Len(b) % 8)) % 8
                  IN Strip(BytesOf([i \in 1..k |-> 0] \o b))
=============================================================================
