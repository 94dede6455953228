------------------------------ MODULE RadixTest -----------------------------
(***************************************************************************)
(* All histories of insertions, removals and commits over keys of a few    *)
(* bits: the tree is always the canonical one, and only what a change      *)
(* touches is stored again.                                                *)
(***************************************************************************)
EXTENDS Integers, Radix

CONSTANTS Vals, Most, Ops    \* values; keys at most; changes between commits

Keys == 0..(2 ^ Depth - 1)
TBit(k, j) == (k \div 2 ^ (Depth - 1 - j)) % 2
TBits(k, d, n) == [j \in 1..n |-> TBit(k, d + j - 1)]

VARIABLES tree, m, touched, gone, ops

vars == << tree, m, touched, gone, ops >>

Init == tree = Nil /\ m = [k \in {} |-> 0] /\ touched = {} /\ gone = FALSE /\ ops = 0

Insert(k, v) ==
  /\ Find(tree, k, 0) # << v >>
  /\ k \in DOMAIN m \/ Cardinality(DOMAIN m) < Most
  /\ tree' = Ins(tree, k, v, 0)
  /\ m' = [x \in DOMAIN m \union {k} |-> IF x = k THEN v ELSE m[x]]
  /\ touched' = touched \union {k} /\ ops' = ops + 1
  /\ UNCHANGED gone

Remove(k) ==
  /\ Find(tree, k, 0) # << >>
  /\ tree' = Rem(tree, k, 0)
  /\ m' = [x \in DOMAIN m \ {k} |-> m[x]]
  /\ touched' = touched \union {k} /\ gone' = TRUE /\ ops' = ops + 1

Commit ==
  /\ ops > 0
  /\ tree' = Stored(tree) /\ touched' = {} /\ gone' = FALSE /\ ops' = 0
  /\ UNCHANGED m

Next == \/ ops < Ops /\ \E k \in Keys : (\E v \in Vals : Insert(k, v)) \/ Remove(k)
        \/ Commit

\* History independence.
Canonical == Stored(tree) = Canon(m, DOMAIN m, 0, TRUE)

Finds == \A k \in Keys : Find(tree, k, 0) = IF k \in DOMAIN m THEN << m[k] >> ELSE << >>

\* What is stored never refers to what is not.
RECURSIVE ClosedAt(_)
ClosedAt(n) == n.t = "int" => /\ n.w => IsStored(n.l) /\ IsStored(n.r)
                              /\ ClosedAt(n.l) /\ ClosedAt(n.r)
Closed == ClosedAt(tree)

\* No node has an empty side.
RECURSIVE FullAt(_)
FullAt(n) == n.t = "int" => n.l.t # "null" /\ n.r.t # "null" /\ FullAt(n.l) /\ FullAt(n.r)
Full == FullAt(tree)

\* A node that is not stored lies on the way to a key that was touched, or is
\* an inner node beside that way.
On(path) == \E k \in touched : TBits(k, 0, Len(path)) = path
RECURSIVE NearAt(_, _)
NearAt(n, path) ==
  n.t = "null" \/
  /\ ~n.w => On(path) \/ (n.t = "int" /\ On(SubSeq(path, 1, Len(path) - 1)))
  /\ n.t = "int" => NearAt(n.l, path \o n.p \o << 0 >>) /\ NearAt(n.r, path \o n.p \o << 1 >>)
Near == NearAt(tree, << >>)

\* A leaf that is not stored was touched.
FreshLeaves == \A j \in 1..Len(New(tree)) : New(tree)[j].t = "leaf" => New(tree)[j].k \in touched

\* One change rebuilds one path.
OnePath == ops = 1 => Len(New(tree)) <= Depth + 2
=============================================================================
