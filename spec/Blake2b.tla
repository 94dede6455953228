------------------------------ MODULE Blake2b -------------------------------
(***************************************************************************)
(* BLAKE2b (RFC 7693).  A 64-bit word is a tuple of four 16-bit limbs,     *)
(* least significant first.  Bytes are naturals 0..255.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Bitwise
LOCAL INSTANCE SequencesExt

LOCAL M == 65536
LOCAL Xor16(a, b) == a ^^ b

XorW(a, b) == << Xor16(a[1], b[1]), Xor16(a[2], b[2]), Xor16(a[3], b[3]), Xor16(a[4], b[4]) >>

AddW(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + (s1 \div M)
      s3 == a[3] + b[3] + (s2 \div M)
      s4 == a[4] + b[4] + (s3 \div M)
  IN << s1 % M, s2 % M, s3 % M, s4 % M >>

\* Rotations to the right that BLAKE2b needs.
Ror16(a) == << a[2], a[3], a[4], a[1] >>
Ror32(a) == << a[3], a[4], a[1], a[2] >>
Ror8(a)  == LET r(x, y) == (x \div 256) + (y % 256) * 256
            IN << r(a[1], a[2]), r(a[2], a[3]), r(a[3], a[4]), r(a[4], a[1]) >>
Ror24(a) == Ror8(Ror16(a))
\* Rotating right by 63 is rotating left by 1.
Ror63(a) == LET l(x, y) == ((x * 2) % M) + (y \div 32768)
            IN << l(a[1], a[4]), l(a[2], a[1]), l(a[3], a[2]), l(a[4], a[3]) >>

IV == << << 51464, 62396, 58983, 27145 >>,   \* 6a09e667f3bcc908
         << 42811, 33994, 44677, 47975 >>,   \* bb67ae8584caa73b
         << 63531, 65172, 62322, 15470 >>,   \* 3c6ef372fe94f82b
         << 14065, 24349, 62778, 42319 >>,   \* a54ff53a5f1d36f1
         << 33489, 44518, 21119, 20750 >>,   \* 510e527fade682d1
         << 27679, 11070, 26764, 39685 >>,   \* 9b05688c2b3e6c1f
         << 48491, 64321, 55723, 8067 >>,    \* 1f83d9abfb41bd6b
         << 8569, 4990, 52505, 23520 >> >>   \* 5be0cd19137e2179

Sigma == <<
  << 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 >>,
  << 14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3 >>,
  << 11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4 >>,
  << 7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8 >>,
  << 9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13 >>,
  << 2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9 >>,
  << 12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11 >>,
  << 13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10 >>,
  << 6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5 >>,
  << 10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0 >> >>

G(v, a, b, c, d, x, y) ==
  LET a1 == AddW(AddW(v[a], v[b]), x)
      d1 == Ror32(XorW(v[d], a1))
      c1 == AddW(v[c], d1)
      b1 == Ror24(XorW(v[b], c1))
      a2 == AddW(AddW(a1, b1), y)
      d2 == Ror16(XorW(d1, a2))
      c2 == AddW(c1, d2)
      b2 == Ror63(XorW(b1, c2))
  IN [v EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]

\* The eight applications of G in one round: working-vector indices.
Mix == << << 1, 5, 9, 13 >>, << 2, 6, 10, 14 >>, << 3, 7, 11, 15 >>, << 4, 8, 12, 16 >>,
          << 1, 6, 11, 16 >>, << 2, 7, 12, 13 >>, << 3, 8, 9, 14 >>, << 4, 5, 10, 15 >> >>

RoundStep(m, v, n) ==     \* n = 0..95: step n%8 of round n\div 8
  LET s == Sigma[((n \div 8) % 10) + 1]
      j == n % 8
      q == Mix[j + 1]
  IN G(v, q[1], q[2], q[3], q[4], m[s[2 * j + 1] + 1], m[s[2 * j + 2] + 1])

\* Number as a 64-bit word.
Word(n) == << n % M, (n \div M) % M, 0, 0 >>

Compress(h, m, t, last) ==
  LET ones == << M - 1, M - 1, M - 1, M - 1 >>
      v0 == h \o << IV[1], IV[2], IV[3], IV[4], XorW(IV[5], Word(t)), IV[6],
                    IF last THEN XorW(IV[7], ones) ELSE IV[7], IV[8] >>
      v  == FoldLeft(LAMBDA acc, n : RoundStep(m, acc, n), v0, [n \in 1..96 |-> n - 1])
  IN [i \in 1..8 |-> XorW(XorW(h[i], v[i]), v[i + 8])]

\* The 16 message words of 128 bytes.
Words(b) == [i \in 1..16 |->
  [l \in 1..4 |-> b[8 * (i - 1) + 2 * l - 1] + 256 * b[8 * (i - 1) + 2 * l]]]

PadTo(b, n) == b \o [i \in 1..(n - Len(b)) |-> 0]

Blake2b(input, key, outlen) ==
  LET data == (IF key = << >> THEN << >> ELSE PadTo(key, 128)) \o input
      len  == Len(data)
      blocks == IF len = 0 THEN 1 ELSE (len + 127) \div 128
      p0 == << outlen + 256 * Len(key), 257, 0, 0 >>   \* 0x0101kknn
      h0 == [IV EXCEPT ![1] = XorW(IV[1], p0)]
      blk(i) == Words(IF i = blocks
                      THEN PadTo(SubSeq(data, 128 * (i - 1) + 1, len), 128)
                      ELSE SubSeq(data, 128 * (i - 1) + 1, 128 * i))
      h == FoldLeft(LAMBDA acc, i : Compress(acc, blk(i), IF i = blocks THEN len ELSE 128 * i, i = blocks),
                    h0, [i \in 1..blocks |-> i])
  IN [i \in 1..outlen |->
        LET w == h[(i - 1) \div 8 + 1]
            l == w[((i - 1) % 8) \div 2 + 1]
        IN IF (i - 1) % 2 = 0 THEN l % 256 ELSE l \div 256]
=============================================================================
