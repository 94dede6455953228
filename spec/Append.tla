------------------------------- MODULE Append -------------------------------
(***************************************************************************)
(* What the library may add to the files: for every commit the nodes that  *)
(* module Radix says are new, their values, and a record; for everything   *)
(* else nothing.                                                           *)
(***************************************************************************)
EXTENDS Trace

RX == INSTANCE Radix WITH KBit <- Bit, KBits <- BitSeq, Depth <- KeyBits

VARIABLES trees,    \* tree of every transaction
          due       \* bytes that may have been added since the last snap

\* Bytes of a stored node, with its value.
Bytes(n) ==
  IF n.t = "leaf" THEN 1 + 7 + 32 + BLen(n.v)
  ELSE LET p == Len(n.p) IN
       1 + (IF p = 0 THEN 0 ELSE IF p < 256 THEN 1 ELSE 2) + (p + 7) \div 8 + 2 * (7 + 32)

RECURSIVE Total(_, _)
Total(s, j) == IF j > Len(s) THEN 0 ELSE Bytes(s[j]) + Total(s, j + 1)

Cost(n) == Total(RX!New(n), 1)
Record == 38 + 38       \* with its padding

\* The tree of a contents that is stored.
RECURSIVE Base(_, _, _)
Base(m, S, d) ==
  IF S = {} THEN RX!Nil
  ELSE LET k == CHOOSE x \in S : TRUE IN
       IF S = {k} THEN RX!Leaf(k, m[k], TRUE)
       ELSE LET b == MinOf({Lcp(k, j) : j \in S \ {k}})
            IN  RX!Node(BitSeq(k, d, b - d), Base(m, {j \in S : Bit(j, b) = 0}, b + 1),
                                             Base(m, {j \in S : Bit(j, b) = 1}, b + 1), TRUE)
BaseOf(m) == Base(m, DOMAIN m, 0)

\* The tree of a transaction after its insertion or removal.
Changed(n, e) ==
  \* (a value that is set to what it is may be stored again)
  CASE e.op \in {"txins", "ins"} -> RX!Ins(n, e.k, e.v, 0)
    [] e.op \in {"txrem", "rem"} -> RX!Rem(n, e.k, 0)

After(t, e) ==
  IF t \notin DOMAIN txs THEN BaseOf(txs'[t])
  ELSE IF e.op \notin {"txins", "txrem", "txclear", "txinject", "commit"} THEN trees[t]
  ELSE IF e.t # t \/ ~Ok(e) THEN trees[t]
  ELSE CASE e.op \in {"txins", "txrem"} -> Changed(trees[t], e)
         [] e.op = "commit" -> RX!Stored(trees[t])
         [] OTHER -> BaseOf(txs'[t])

AInit == Init /\ trees = NoFun /\ due = 0

Adds(e) ==
  CASE e.op = "commit" -> Cost(trees[e.t]) + Record
    [] e.op \in {"ins", "rem"} -> Cost(Changed(BaseOf(head), e)) + Record

RECURSIVE Growth(_, _)
Growth(f, j) == IF j > Len(f) THEN 0 ELSE f[j].is - f[j].was + Growth(f, j + 1)

\* A record that begins a file is padded in both.
Fresh_(f) == Cardinality({j \in 1..Len(f) : f[j].was = 0 /\ j > 1})

ANext ==
  /\ Next
  /\ \E e \in {Events[i]} :
       /\ trees' = [t \in DOMAIN txs' |-> After(t, e)]
       /\ due' = IF e.op \in {"snap", "new"} THEN 0
                 ELSE IF e.op \in {"commit", "ins", "rem"} THEN (IF Ok(e) THEN due + Adds(e) ELSE due)
                 ELSE due
       /\ e.op = "grown" => Growth(e.files, 1) <= due + 38 * Fresh_(e.files)
=============================================================================
