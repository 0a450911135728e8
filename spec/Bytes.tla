------------------------------- MODULE Bytes -------------------------------
(* Byte- and bit-level vocabulary shared by the wire-format specifications.
   An n-bit integer, a double or a string is a sequence of bytes, most
   significant first (TLC's own integers are only 32 bits wide).  A bit
   sequence has its least significant bit first.                          *)
EXTENDS Integers, Sequences

Byte == 0..255

Pow2(n) == 2^n

(* the bits of a big-endian byte string *)
Bits(bs) ==
  [i \in 1..8*Len(bs) |->
     (bs[Len(bs) - ((i-1) \div 8)] \div Pow2((i-1) % 8)) % 2]

BitAt(bits, i) == IF i <= Len(bits) THEN bits[i] ELSE 0

(* the value of bits i..i+n-1 (n <= 8) *)
RECURSIVE Group(_, _, _)
Group(bits, i, n) == IF n = 0 THEN 0
                     ELSE BitAt(bits, i) + 2 * Group(bits, i+1, n-1)

(* a big-endian byte string of n bytes from a bit sequence *)
BytesOf(bits, n) == [k \in 1..n |-> Group(bits, 8*(n-k) + 1, 8)]

(* zigzag: the sign bit moves to position 0, the other bits are flipped by it *)
ZigZag(bits) ==
  LET s == bits[Len(bits)]
  IN  [i \in 1..Len(bits) |-> IF i = 1 THEN s ELSE (bits[i-1] + s) % 2]

UnZigZag(bits) ==
  LET s == bits[1]
  IN  [i \in 1..Len(bits) |-> IF i = Len(bits) THEN s ELSE (bits[i+1] + s) % 2]

HighBit(bits) ==
  LET on == {i \in 1..Len(bits) : bits[i] = 1}
  IN  IF on = {} THEN 1 ELSE CHOOSE i \in on : \A j \in on : j <= i

(* unsigned LEB128 of a bit sequence, minimal length *)
Varint(bits) ==
  LET g == (HighBit(bits) + 6) \div 7
  IN  [k \in 1..g |-> Group(bits, 7*(k-1) + 1, 7) + (IF k < g THEN 128 ELSE 0)]

(* sign-extend / truncate a big-endian byte string to n bytes *)
SignExt(bs, n) ==
  LET f == IF bs[1] >= 128 THEN 255 ELSE 0
  IN  [k \in 1..n |-> IF k <= n - Len(bs) THEN f ELSE bs[k - (n - Len(bs))]]

LowBytes(bs, n) == SubSeq(bs, Len(bs) - n + 1, Len(bs))

RECURSIVE IntOfNat(_, _)
(* big-endian, n bytes, of a non-negative TLC integer *)
IntOfNat(v, n) == IF n = 0 THEN <<>> ELSE IntOfNat(v \div 256, n-1) \o <<v % 256>>

(* non-negative TLC integer below 2^31 from at most 4 bytes (top bit clear) *)
RECURSIVE NatOf(_)
NatOf(bs) == IF bs = <<>> THEN 0
             ELSE 256 * NatOf(SubSeq(bs, 1, Len(bs)-1)) + bs[Len(bs)]

(* signed 16-bit *)
I16Of(v) == IF v >= 0 THEN <<v \div 256, v % 256>>
            ELSE <<(v + 65536) \div 256, (v + 65536) % 256>>
IntOf16(bs) == LET u == 256 * bs[1] + bs[2] IN IF u >= 32768 THEN u - 65536 ELSE u

Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

IsNeg(bs) == bs[1] >= 128

(* --- decoding from a stream at a position: [r |-> "ok"|"err"|"any", ...] --- *)
Avail(b, p, n) == p + n - 1 <= Len(b)
Take(b, p, n)  == SubSeq(b, p, p + n - 1)

(* length of the varint starting at p: 0 if the stream ends first, 11 if it
   is longer than 10 bytes *)
RECURSIVE VarLenFrom(_, _, _)
VarLenFrom(b, p, k) ==
  IF k > 10 THEN 11
  ELSE IF p + k - 1 > Len(b) THEN 0
  ELSE IF b[p + k - 1] < 128 THEN k
  ELSE VarLenFrom(b, p, k + 1)
VarLen(b, p) == VarLenFrom(b, p, 1)

VarBits(b, p, k) ==
  [i \in 1..7*k |-> (b[p + ((i-1) \div 7)] \div Pow2((i-1) % 7)) % 2]

(* an unsigned varint meant for an n-bit integer *)
DecVar(b, p, nbits) ==
  LET k == VarLen(b, p)
  IN  IF k = 0 \/ k = 11 THEN [r |-> "err", k |-> 0, bits |-> <<>>]
      ELSE LET vb == VarBits(b, p, k)
               over == \E i \in (nbits+1)..Len(vb) : vb[i] = 1
           IN  [r |-> IF over \/ k > (nbits + 6) \div 7 THEN "any" ELSE "ok",
                k |-> k, bits |-> [i \in 1..nbits |-> BitAt(vb, i)]]
=============================================================================
