------------------------------ MODULE PrimTest ------------------------------
(***************************************************************************)
(* The Java overrides of module Prim agree with their TLA+ definitions.    *)
(***************************************************************************)
EXTENDS Prim, TLC   \* Prim is overridden by java/Prim.java

Q == INSTANCE PrimPure      \* the same text, not overridden

Samples == { "", "00", "ff", "80", "7f", "a5c3", "0123456789abcdef", "0123456789abcdee",
             Rep("00", 31) \o "01", Rep("5a", 127), Rep("5a", 128), Rep("5a", 129), Rep("c7", 300) }

ASSUME \A x \in Samples : H(x) = Q!H(x) /\ HKeyed20(x, "0011223344") = Q!HKeyed20(x, "0011223344")
ASSUME \A x \in Samples : BLen(x) = Q!BLen(x) /\ \A i \in 0..(8 * BLen(x) - 1) : Bit(x, i) = Q!Bit(x, i)
ASSUME \A x, y \in Samples : Lcp(x, y) = Q!Lcp(x, y)
ASSUME \A n \in {0, 1, 9, 127, 128, 255, 256, 1023, 65535} : U16(n) = Q!U16(n) /\ U8(n % 256) = Q!U8(n % 256)
ASSUME LET x == "0123456789abcdef" IN
       /\ \A s \in 0..64 : \A n \in 0..(64 - s) : Pack(x, s, n) = Q!Pack(x, s, n) /\ BitSeq(x, s, n) = Q!BitSeq(x, s, n)
       /\ \A i \in 0..8 : \A n \in 0..(8 - i) : Sub(x, i, n) = Q!Sub(x, i, n)
       /\ \A i \in 0..6 : RdU16(x, i) = Q!RdU16(x, i) /\ ByteAt(x, i) = Q!ByteAt(x, i)
ASSUME \A n \in {0, 1, 127, 128, 129, 300, 777} : HLong(0, n) = Q!HLong(0, n)
ASSUME Rep("ab", 5) = Q!Rep("ab", 5) /\ ZeroHash = Q!ZeroHash
ASSUME PrintT(<<"PRIMTEST", "ok">>)

VARIABLE st
Init == st = 0
Next == UNCHANGED st
=============================================================================
