-------------------------------- MODULE Prim --------------------------------
(***************************************************************************)
(* Byte strings are TLA+ strings of lower-case hexadecimal digits, two per *)
(* byte.  Bits are numbered from 0, the most significant bit of byte 0.    *)
(*                                                                         *)
(* java/Prim.java overrides the operators below for speed; module PrimTest *)
(* checks each override against the definition given here.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Blake2b

Nibbles == << "0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f" >>

NibVal == [c \in {Nibbles[j] : j \in 1..16} |-> (CHOOSE j \in 1..16 : Nibbles[j] = c) - 1]

\* Number of bytes of a hex string.
BLen(x) == Len(x) \div 2

\* Bytes i .. i+n-1 (0-based) of x.
Sub(x, i, n) == SubSeq(x, 2 * i + 1, 2 * (i + n))

\* Value of byte i (0-based) of x.
ByteAt(x, i) == 16 * NibVal[SubSeq(x, 2 * i + 1, 2 * i + 1)] + NibVal[SubSeq(x, 2 * i + 2, 2 * i + 2)]

U8(n)  == Nibbles[((n \div 16) % 16) + 1] \o Nibbles[(n % 16) + 1]
U16(n) == U8(n % 256) \o U8((n \div 256) % 256)     \* little endian

RdU16(x, i) == ByteAt(x, i) + 256 * ByteAt(x, i + 1)

Pow2 == << 1, 2, 4, 8, 16, 32, 64, 128 >>

\* Bit i of x, 0 or 1.
Bit(x, i) == (ByteAt(x, i \div 8) \div Pow2[8 - (i % 8)]) % 2

RECURSIVE LcpFrom(_, _, _)
LcpFrom(x, y, i) ==
  IF i >= 8 * BLen(x) \/ i >= 8 * BLen(y) THEN i
  ELSE IF Bit(x, i) # Bit(y, i) THEN i ELSE LcpFrom(x, y, i + 1)

\* Length in bits of the longest common prefix.
Lcp(x, y) == LcpFrom(x, y, 0)

RECURSIVE PackFrom(_, _, _)
PackFrom(x, s, n) ==
  IF n = 0 THEN ""
  ELSE LET m == IF n < 8 THEN n ELSE 8
           RECURSIVE B(_)
           B(j) == IF j = m THEN 0 ELSE Bit(x, s + j) * Pow2[8 - j] + B(j + 1)
       IN  U8(B(0)) \o PackFrom(x, s + m, n - m)

\* Bits s .. s+n-1 of x packed into bytes, zero padded on the right.
Pack(x, s, n) == PackFrom(x, s, n)

\* The same bits as a sequence.
BitSeq(x, s, n) == [j \in 1..n |-> Bit(x, s + j - 1)]

RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN "" ELSE x \o Rep(x, n - 1)

ZeroHash == Rep("00", 32)

RECURSIVE ToBytes(_)
ToBytes(x) == IF x = "" THEN << >> ELSE << ByteAt(x, 0) >> \o ToBytes(SubSeq(x, 3, Len(x)))

RECURSIVE FromBytes(_)
FromBytes(b) == IF b = << >> THEN "" ELSE U8(Head(b)) \o FromBytes(Tail(b))

\* BLAKE2b-256 of x.
H(x) == FromBytes(Blake2b(ToBytes(x), << >>, 32))

\* The same of a long text, 65536*hi + lo bytes of a pattern.
Period == 1028096
PatternByte(i) == ((i % Period) * 31 + ((i % Period) \div 256) * 7) % 256
HLong(hi, lo) == FromBytes(Blake2b([i \in 1..(65536 * hi + lo) |-> PatternByte(i - 1)], << >>, 32))

\* BLAKE2b-160 of x keyed with k.
HKeyed20(x, k) == FromBytes(Blake2b(ToBytes(x), ToBytes(k), 20))
=============================================================================
