----------------------------- MODULE ProofSound -----------------------------
(***************************************************************************)
(* Verification is sound (C04), for keys of one byte of which NB bits are  *)
(* free: the verifier of module Merkle accepts a proof only if what it     *)
(* says is true of the map that has this root.                             *)
(*                                                                         *)
(* An attacker who knows the whole tree builds a proof from its last part  *)
(* upwards.  Any hash he can use is that of a part of this tree, of a tree *)
(* of one more key, of nothing, or of no tree at all; a proof is worth     *)
(* extending only while its hash can still become the root: the hash of a  *)
(* part of the tree (H has no collisions), so that all proofs that could   *)
(* be accepted are visited, and many others.                               *)
(***************************************************************************)
EXTENDS Merkle, TLC

CONSTANT NB, Vals

Width == 8      \* replaces KeyBits

Keys == {U8(x * Pow2[9 - NB - 1] + 1) : x \in 0..(2^NB - 1)}     \* the free bits start at bit 1; bit 7 is set
Stranger == {"fe"}
Maps == UNION {[S -> Vals] : S \in SUBSET Keys}

RECURSIVE Parts(_)
Parts(t) == IF t.t = "int" THEN {t} \union Parts(t.l) \union Parts(t.r) ELSE {t}

VARIABLES m,      \* the map
          key,    \* what the proof is about
          p,      \* the proof so far, nodes are put in front
          h,      \* the hash it stands for
          hs, ps, rt  \* Hashes(m), Prefixes(m), RootOf(m), to save time

vars == << m, key, p, h, hs, ps, rt >>

Hashes(x) == {q.h : q \in Parts(TreeOf(x))} \union {ZeroHash, H("ff")}

Prefixes(x) == {[n |-> 0, bits |-> ""]} \union
               {[n |-> q.n, bits |-> q.bits] : q \in {z \in Parts(TreeOf(x)) : z.t = "int"}} \union
               {[n |-> 1, bits |-> "00"], [n |-> 1, bits |-> "80"], [n |-> 2, bits |-> "40"], [n |-> 1, bits |-> "c0"]}

\* Last parts.
Ends ==
  [type : {DEADEND}] \union
  {[type |-> SHORT, n |-> q.n, bits |-> q.bits, left |-> l, right |-> r] : q \in {z \in ps : z.n > 0}, l \in hs, r \in hs} \union
  {[type |-> COLLISION, key |-> j, vhash |-> H(v)] : j \in Keys \union Stranger, v \in Vals} \union
  [type : {EXISTS_}, value : Vals]

EndHash(e, k) ==
  CASE e.type = DEADEND   -> ZeroHash
    [] e.type = SHORT     -> InternalHash(e.n, e.bits, e.left, e.right)
    [] e.type = COLLISION -> LeafHash(e.key, e.vhash)
    [] e.type = EXISTS_   -> LeafHash(k, H(e.value))

Full(e, d, nodes) ==
  CASE e.type = DEADEND   -> [type |-> e.type, depth |-> d, nodes |-> nodes]
    [] e.type = SHORT     -> [type |-> e.type, depth |-> d, nodes |-> nodes, n |-> e.n, bits |-> e.bits, left |-> e.left, right |-> e.right]
    [] e.type = COLLISION -> [type |-> e.type, depth |-> d, nodes |-> nodes, key |-> e.key, vhash |-> e.vhash]
    [] e.type = EXISTS_   -> [type |-> e.type, depth |-> d, nodes |-> nodes, value |-> e.value]

Init ==
  /\ m \in Maps /\ hs = Hashes(m) /\ ps = Prefixes(m) /\ rt = RootOf(m)
  /\ key \in Keys \union Stranger
  /\ \E e \in Ends : \E x \in {EndHash(e, key)} :
       /\ x \in hs
       /\ h = x
       /\ \E d \in 0..Width : p = Full(e, d, << >>)

\* One more node in front.
Next ==
  /\ Len(p.nodes) < NB
  /\ \E q \in ps, s \in hs, left \in BOOLEAN :
       \E x \in {IF left THEN InternalHash(q.n, q.bits, h, s) ELSE InternalHash(q.n, q.bits, s, h)} :
         /\ x \in hs
         /\ h' = x
         /\ p' = [p EXCEPT !.nodes = << [n |-> q.n, bits |-> q.bits, h |-> s] >> \o @]
  /\ UNCHANGED << m, key, hs, ps, rt >>

\* Whatever is accepted is true.
Sound ==
  \E r \in {VerifyProof(p, key, rt)} :
    r.err = 0 =>
      /\ (r.exists = 1) <=> (key \in DOMAIN m)
      /\ r.exists = 1 => r.value = m[key]
=============================================================================
