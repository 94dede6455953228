-------------------------------- MODULE Radix -------------------------------
(***************************************************************************)
(* How the tree is changed: one path from the root is rebuilt, a prefix is *)
(* split where a new key leaves it, and joined with that of the sibling    *)
(* when a key goes.  Every node says whether it is stored already (w); a   *)
(* commit stores the nodes that are not, and they are never stored again.  *)
(*                                                                         *)
(* RadixTest checks on all small trees that the result is the canonical    *)
(* tree of the contents, whatever the history, and what a commit stores.   *)
(* Append holds the library to the latter.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS KBit(_, _),        \* bit of a key
          KBits(_, _, _)     \* bits d .. d+n-1 of a key, as a sequence

CONSTANT Depth               \* number of bits of a key

Nil == [t |-> "null"]
Leaf(k, v, w) == [t |-> "leaf", k |-> k, v |-> v, w |-> w]
Node(p, l, r, w) == [t |-> "int", p |-> p, l |-> l, r |-> r, w |-> w]

\* With x on the side of the given bit and y on the other.
Fork(p, x, y, bit) == IF bit = 0 THEN Node(p, x, y, FALSE) ELSE Node(p, y, x, FALSE)

Side(n, bit) == IF bit = 0 THEN n.l ELSE n.r

RECURSIVE CommonFrom(_, _, _)
CommonFrom(p, q, j) == IF j >= Len(p) \/ j >= Len(q) THEN j
                       ELSE IF p[j + 1] # q[j + 1] THEN j ELSE CommonFrom(p, q, j + 1)
Common(p, q) == CommonFrom(p, q, 0)

\* The prefix p continues with the bits of k at depth d for this long.
Follows(p, k, d) == Common(p, KBits(k, d, Len(p)))

(***************************************************************************)
(* Inserting, removing and finding in the subtree n at depth d.            *)
(***************************************************************************)
RECURSIVE Ins(_, _, _, _)
Ins(n, k, v, d) ==
  CASE n.t = "null" -> Leaf(k, v, FALSE)
    [] n.t = "leaf" ->
         IF n.k = k THEN Leaf(k, v, FALSE)
         ELSE LET a == KBits(k, d, Depth - d)
                  c == Common(a, KBits(n.k, d, Depth - d))
              IN  Fork(SubSeq(a, 1, c), Leaf(k, v, FALSE), n, a[c + 1])
    [] n.t = "int" ->
         LET c == Follows(n.p, k, d)
             b == KBit(k, d + c)
         IN  IF c < Len(n.p)
             THEN Fork(SubSeq(n.p, 1, c), Leaf(k, v, FALSE), Node(SubSeq(n.p, c + 2, Len(n.p)), n.l, n.r, FALSE), b)
             ELSE Fork(n.p, Ins(Side(n, b), k, v, d + c + 1), Side(n, 1 - b), b)

RECURSIVE Rem(_, _, _)
Rem(n, k, d) ==
  CASE n.t = "leaf" -> Nil
    [] n.t = "int" ->
         LET e == d + Len(n.p)
             b == KBit(k, e)
             x == Rem(Side(n, b), k, e + 1)
             y == Side(n, 1 - b)
         IN  CASE x.t # "null" -> Fork(n.p, x, y, b)
               [] y.t = "leaf" -> y
               [] y.t = "int"  -> Node(n.p \o << 1 - b >> \o y.p, y.l, y.r, FALSE)

\* The value of k, in a sequence of one; or none.
RECURSIVE Find(_, _, _)
Find(n, k, d) ==
  CASE n.t = "null" -> << >>
    [] n.t = "leaf" -> IF n.k = k THEN << n.v >> ELSE << >>
    [] n.t = "int"  -> IF Follows(n.p, k, d) < Len(n.p) THEN << >>
                       ELSE LET e == d + Len(n.p) IN Find(Side(n, KBit(k, e)), k, e + 1)

(***************************************************************************)
(* The canonical tree of the keys S of m, which share their first d bits.  *)
(***************************************************************************)
RECURSIVE Canon(_, _, _, _)
Canon(m, S, d, w) ==
  IF S = {} THEN Nil
  ELSE LET k == CHOOSE x \in S : TRUE IN
       IF S = {k} THEN Leaf(k, m[k], w)
       ELSE LET n == CHOOSE c \in 0..(Depth - d - 1) :
                       /\ \E j \in S : KBit(j, d + c) # KBit(k, d + c)
                       /\ \A j \in S : KBits(j, d, c) = KBits(k, d, c)
            IN  Node(KBits(k, d, n), Canon(m, {j \in S : KBit(j, d + n) = 0}, d + n + 1, w),
                                     Canon(m, {j \in S : KBit(j, d + n) = 1}, d + n + 1, w), w)

\* As it is after a commit of m.
RECURSIVE Stored(_)
Stored(n) == CASE n.t = "null" -> n
               [] n.t = "leaf" -> [n EXCEPT !.w = TRUE]
               [] n.t = "int"  -> IF n.w THEN n ELSE Node(n.p, Stored(n.l), Stored(n.r), TRUE)

IsStored(n) == n.t = "null" \/ n.w

\* The nodes that a commit of n stores.
RECURSIVE New(_)
New(n) == IF IsStored(n) THEN << >>
          ELSE IF n.t = "leaf" THEN << n >> ELSE New(n.l) \o New(n.r) \o << n >>
=============================================================================
