------------------------------- MODULE Merkle -------------------------------
(***************************************************************************)
(* The canonical base-2 Merkle radix tree of a map from 32-byte keys to    *)
(* values, its root hash, iteration order, and the proof format.           *)
(* A map is a function whose domain is a set of keys.                      *)
(***************************************************************************)
EXTENDS Prim, FiniteSets

KeyBits  == 256
MaxValue == 1023

EHASHMISMATCH == 1
ESAMEKEY      == 2
ESAMEPATH     == 3
ENEGDEPTH     == 4
EPATHMISMATCH == 5
ETOODEEP      == 6
EINVAL        == 7
ENOTFOUND     == 8
ECORRUPTION   == 9
ENOUPDATE     == 10
EBADWRITE     == 11
EBADOPEN      == 12
EITEREND      == 13

EmptyMap == [k \in {} |-> ""]

(***************************************************************************)
(* Hashes                                                                  *)
(***************************************************************************)
LeafHash(key, vhash) == H("00" \o key \o vhash)

\* A prefix is a number of bits and their packed bytes.
InternalHash(n, bits, left, right) ==
  IF n = 0 THEN H("01" \o left \o right)
           ELSE H("02" \o U16(n) \o bits \o left \o right)

(***************************************************************************)
(* The tree of the keys S, which all share their first d bits.             *)
(***************************************************************************)
MinOf(T) == CHOOSE x \in T : \A y \in T : x <= y

RECURSIVE Tree(_, _, _)
Tree(m, S, d) ==
  IF S = {} THEN [t |-> "null", h |-> ZeroHash]
  ELSE LET k == CHOOSE x \in S : TRUE IN
       IF Cardinality(S) = 1
       THEN [t |-> "leaf", key |-> k, h |-> LeafHash(k, H(m[k]))]
       ELSE LET b == MinOf({Lcp(k, j) : j \in S \ {k}})    \* first bit that differs
                l == Tree(m, {j \in S : Bit(j, b) = 0}, b + 1)
                r == Tree(m, {j \in S : Bit(j, b) = 1}, b + 1)
                p == Pack(k, d, b - d)
            IN [t |-> "int", n |-> b - d, bits |-> p, l |-> l, r |-> r,
                h |-> InternalHash(b - d, p, l.h, r.h)]

TreeOf(m) == Tree(m, DOMAIN m, 0)
RootOf(m) == TreeOf(m).h

\* Keys in ascending order: the leaves from left to right.
RECURSIVE Leaves(_)
Leaves(t) == CASE t.t = "null" -> << >>
               [] t.t = "leaf" -> << t.key >>
               [] t.t = "int"  -> Leaves(t.l) \o Leaves(t.r)
SortedKeys(m) == Leaves(TreeOf(m))

(***************************************************************************)
(* Proofs: records [type, depth, nodes, rest].  A node is [n, bits, h].    *)
(***************************************************************************)
DEADEND   == 0
SHORT     == 1
COLLISION == 2
EXISTS_   == 3

HasBits(n, bits, key, d) ==     \* key continues with the n bits at depth d
  d + n <= KeyBits /\ (n = 0 \/ Lcp(bits, Pack(key, d, n)) >= n)

RECURSIVE Walk(_, _, _, _, _)
Walk(m, t, key, d, nodes) ==
  CASE t.t = "null" -> [type |-> DEADEND, depth |-> d, nodes |-> nodes]
    [] t.t = "leaf" ->
         IF t.key = key
         THEN [type |-> EXISTS_, depth |-> d, nodes |-> nodes, value |-> m[key]]
         ELSE [type |-> COLLISION, depth |-> d, nodes |-> nodes, key |-> t.key, vhash |-> H(m[t.key])]
    [] t.t = "int" ->
         IF ~HasBits(t.n, t.bits, key, d)
         THEN [type |-> SHORT, depth |-> d, nodes |-> nodes,
               n |-> t.n, bits |-> t.bits, left |-> t.l.h, right |-> t.r.h]
         ELSE LET e == d + t.n
                  x == IF Bit(key, e) = 0 THEN t.l ELSE t.r
                  y == IF Bit(key, e) = 0 THEN t.r ELSE t.l
              IN Walk(m, x, key, e + 1, Append(nodes, [n |-> t.n, bits |-> t.bits, h |-> y.h]))

ProofIn(m, t, key) == Walk(m, t, key, 0, << >>)

EncBits(n, bits) == (IF n >= 128 THEN U8(128 + (n \div 256)) ELSE "") \o U8(n % 256) \o bits

RECURSIVE CatFrom(_, _)
CatFrom(s, i) == IF i > Len(s) THEN "" ELSE s[i] \o CatFrom(s, i + 1)
Cat(s) == CatFrom(s, 1)

\* One bit per node: does it have a prefix?
PresenceMap(nodes) ==
  LET c == Len(nodes)
      byte(j) == LET RECURSIVE S(_)
                     S(b) == IF b = 8 THEN 0
                             ELSE (IF 8 * j + b < c /\ nodes[8 * j + b + 1].n > 0 THEN Pow2[8 - b] ELSE 0) + S(b + 1)
                 IN S(0)
  IN Cat([j \in 1..((c + 7) \div 8) |-> U8(byte(j - 1))])

Encode(p) ==
  U16(p.type * 16384 + p.depth) \o U16(Len(p.nodes)) \o PresenceMap(p.nodes)
  \o Cat([i \in 1..Len(p.nodes) |->
            (IF p.nodes[i].n > 0 THEN EncBits(p.nodes[i].n, p.nodes[i].bits) ELSE "") \o p.nodes[i].h])
  \o (CASE p.type = DEADEND   -> ""
        [] p.type = SHORT     -> EncBits(p.n, p.bits) \o p.left \o p.right
        [] p.type = COLLISION -> p.key \o p.vhash
        [] p.type = EXISTS_   -> U16(BLen(p.value)) \o p.value)

\* Decoding.  Bad is the result for malformed input.
Bad == [type |-> 99]

\* Reads a prefix at byte i: [ok, n, bits, i].
ReadBits(x, i) ==
  LET no == [ok |-> FALSE, n |-> 0, bits |-> "", i |-> 0] IN
  IF i >= BLen(x) THEN no
  ELSE LET b0 == ByteAt(x, i) IN
       IF b0 >= 128 /\ i + 1 >= BLen(x) THEN no
       ELSE LET n == IF b0 >= 128 THEN (b0 - 128) * 256 + ByteAt(x, i + 1) ELSE b0
                j == IF b0 >= 128 THEN i + 2 ELSE i + 1
                c == (n + 7) \div 8
            IN IF (b0 >= 128 /\ n < 128) \/ n > KeyBits \/ n = 0 \/ j + c > BLen(x) THEN no
               ELSE [ok |-> TRUE, n |-> n, bits |-> Sub(x, j, c), i |-> j + c]

RECURSIVE ReadNodes(_, _, _, _, _)
ReadNodes(x, map, c, i, acc) ==      \* c nodes in all; [ok, nodes, i]
  IF Len(acc) = c THEN [ok |-> TRUE, nodes |-> acc, i |-> i]
  ELSE LET has == Bit(map, Len(acc)) = 1
           p == IF has THEN ReadBits(x, i) ELSE [ok |-> TRUE, n |-> 0, bits |-> "", i |-> i]
       IN IF ~p.ok \/ (p.ok /\ p.i + 32 > BLen(x)) THEN [ok |-> FALSE, nodes |-> << >>, i |-> 0]
          ELSE ReadNodes(x, map, c, p.i + 32, Append(acc, [n |-> p.n, bits |-> p.bits, h |-> Sub(x, p.i, 32)]))

Decode(x) ==
  IF BLen(x) < 4 THEN Bad
  ELSE LET f == RdU16(x, 0)
           type == f \div 16384
           depth == f % 16384
           c == RdU16(x, 2)
           bs == (c + 7) \div 8
       IN IF depth > KeyBits \/ c > KeyBits \/ 4 + bs > BLen(x) THEN Bad
          ELSE LET r == ReadNodes(x, Sub(x, 4, bs), c, 4 + bs, << >>)
                   i == r.i
                   left == BLen(x) - i
               IN IF ~r.ok THEN Bad
                  ELSE CASE type = DEADEND ->
                              IF left = 0 THEN [type |-> type, depth |-> depth, nodes |-> r.nodes] ELSE Bad
                         [] type = SHORT ->
                              LET p == ReadBits(x, i) IN
                              IF ~p.ok THEN Bad
                              ELSE IF p.i + 64 # BLen(x) THEN Bad
                              ELSE [type |-> type, depth |-> depth, nodes |-> r.nodes, n |-> p.n, bits |-> p.bits,
                                    left |-> Sub(x, p.i, 32), right |-> Sub(x, p.i + 32, 32)]
                         [] type = COLLISION ->
                              IF left # 64 THEN Bad
                              ELSE [type |-> type, depth |-> depth, nodes |-> r.nodes,
                                    key |-> Sub(x, i, 32), vhash |-> Sub(x, i + 32, 32)]
                         [] type = EXISTS_ ->
                              IF left < 2 THEN Bad
                              ELSE IF RdU16(x, i) > MaxValue \/ left # 2 + RdU16(x, i) THEN Bad
                              ELSE [type |-> type, depth |-> depth, nodes |-> r.nodes,
                                    value |-> Sub(x, i + 2, RdU16(x, i))]

\* Climbs from the remainder's hash to the root: [err, h, d].
RECURSIVE Climb(_, _, _, _, _)
Climb(nodes, i, key, d, h) ==
  IF i = 0 THEN [err |-> 0, h |-> h, d |-> d]
  ELSE LET v == nodes[i] IN
       IF d < v.n + 1 THEN [err |-> ENEGDEPTH, h |-> h, d |-> d]
       ELSE LET e == d - 1 - v.n
                g == IF Bit(key, d - 1) = 1 THEN InternalHash(v.n, v.bits, v.h, h)
                                            ELSE InternalHash(v.n, v.bits, h, v.h)
            IN IF ~HasBits(v.n, v.bits, key, e) THEN [err |-> EPATHMISMATCH, h |-> g, d |-> e]
               ELSE Climb(nodes, i - 1, key, e, g)

\* The result of verification: [err, exists, value].
VerifyProof(p, key, root) ==
  LET no(e) == [err |-> e, exists |-> 0, value |-> ""]
  IN IF p = Bad THEN no(EINVAL)
     ELSE IF p.type = SHORT /\ HasBits(p.n, p.bits, key, p.depth) THEN no(ESAMEPATH)
     ELSE IF p.type = COLLISION /\ p.key = key THEN no(ESAMEKEY)
     ELSE LET h == CASE p.type = DEADEND   -> ZeroHash
                     [] p.type = SHORT     -> InternalHash(p.n, p.bits, p.left, p.right)
                     [] p.type = COLLISION -> LeafHash(p.key, p.vhash)
                     [] p.type = EXISTS_   -> LeafHash(key, H(p.value))
              r == Climb(p.nodes, Len(p.nodes), key, p.depth, h)
          IN IF r.err # 0 THEN no(r.err)
             ELSE IF r.d # 0 THEN no(ETOODEEP)
             ELSE IF r.h # root THEN no(EHASHMISMATCH)
             ELSE IF p.type = EXISTS_ THEN [err |-> 0, exists |-> 1, value |-> p.value]
             ELSE [err |-> 0, exists |-> 0, value |-> ""]

Verify(x, key, root) == VerifyProof(Decode(x), key, root)
=============================================================================
