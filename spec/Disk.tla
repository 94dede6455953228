-------------------------------- MODULE Disk --------------------------------
(***************************************************************************)
(* The files of a database.                                                *)
(*                                                                         *)
(* An image is a record [key, files].  key is the contents of the file     *)
(* `meta', the key of all checksums.  files[f] describes the data file     *)
(* number f: its length n, and s, the pieces of it that are there, a       *)
(* sequence of << offset, bytes >>; everything else is zero.               *)
(*                                                                         *)
(* ReadLog gives the commits an image holds, oldest first, and WriteLog    *)
(* makes an image that holds given commits.                                *)
(***************************************************************************)
EXTENDS Merkle, TLC

RecSize == 38
PtrSize == 7
Magic   == "6c6b726d"

NoPtr == [f |-> 0, o |-> 0, n |-> 0]
NullPtr == "00000000000000"

(***************************************************************************)
(* Pointers: file (15 bits), offset (31 bits) and size (10 bits).          *)
(***************************************************************************)
RdPtr(x, i) ==
  [f |-> RdU16(x, i) \div 2,
   o |-> (ByteAt(x, i + 2) \div 2) + 128 * ByteAt(x, i + 3) + 32768 * ByteAt(x, i + 4) + 8388608 * ByteAt(x, i + 5),
   n |-> ByteAt(x, i + 6) + 256 * (ByteAt(x, i + 2) % 2) + 512 * (ByteAt(x, i) % 2)]

WrPtr(p) ==
  U16(2 * p.f + (p.n \div 512))
  \o U8(2 * (p.o % 128) + ((p.n \div 256) % 2)) \o U8((p.o \div 128) % 256) \o U8((p.o \div 32768) % 256) \o U8(p.o \div 8388608)
  \o U8(p.n % 256)

(***************************************************************************)
(* Reading                                                                 *)
(***************************************************************************)
\* The piece of s that holds bytes o .. o+n-1, or 0.
Piece(s, o, n) ==
  LET c == {j \in 1..Len(s) : s[j][1] <= o /\ o + n <= s[j][1] + BLen(s[j][2])} IN
  IF c = {} THEN 0 ELSE CHOOSE j \in c : TRUE

There(img, p) == p.f \in 1..Len(img.files) /\ p.o + p.n <= img.files[p.f].n

BytesAt(img, p) ==
  IF p.n = 0 THEN ""
  ELSE LET s == img.files[p.f].s
           j == Piece(s, p.o, p.n)
       IN IF j = 0 THEN Rep("00", p.n) ELSE Sub(s[j][2], p.o - s[j][1], p.n)

IsRec(x, key) == Sub(x, 0, 4) = Magic /\ Sub(x, 18, 20) = HKeyed20(Sub(x, 0, 18), key)

\* The last record at or below offset o of file f, or else of the files before it.
RECURSIVE LastRec(_, _, _)
LastRec(img, f, o) ==
  IF f = 0 THEN NoPtr
  ELSE IF o < 0 THEN (IF f = 1 THEN NoPtr ELSE LastRec(img, f - 1, (img.files[f - 1].n \div RecSize) * RecSize - RecSize))
  ELSE IF IsRec(BytesAt(img, [f |-> f, o |-> o, n |-> RecSize]), img.key) THEN [f |-> f, o |-> o, n |-> RecSize]
  ELSE LastRec(img, f, o - RecSize)

Newest(img) ==
  LET f == Len(img.files) IN
  IF f = 0 THEN NoPtr ELSE LastRec(img, f, (img.files[f].n \div RecSize) * RecSize - RecSize)

\* What is wrong with an image.
Broken == [ok |-> FALSE, m |-> EmptyMap, h |-> ""]

\* The part of a tree at pointer p: [ok, m, h].
RECURSIVE ReadTree(_, _)
ReadTree(img, p) ==
  IF ~There(img, p) \/ p.n = 0 THEN Broken
  ELSE LET x == BytesAt(img, p)
           type == ByteAt(x, 0) % 16
           flags == ByteAt(x, 0) \div 16
       IN IF type = 2 THEN
            IF p.n # 1 + PtrSize + 32 \/ flags # 0 THEN Broken
            ELSE LET v == RdPtr(x, 1) IN
                 IF ~There(img, v) \/ v.n > MaxValue THEN Broken
                 ELSE LET key == Sub(x, 8, 32)
                          val == BytesAt(img, v)
                      IN [ok |-> TRUE, m |-> (key :> val), h |-> LeafHash(key, H(val))]
          ELSE IF type = 1 THEN
            LET n == IF flags % 2 = 0 THEN 0 ELSE IF flags = 1 THEN ByteAt(x, 1) ELSE RdU16(x, 1)
                i == IF flags % 2 = 0 THEN 1 ELSE IF flags = 1 THEN 2 ELSE 3
                c == (n + 7) \div 8
            IN IF flags \notin {0, 1, 3} \/ (flags # 0 /\ n = 0) \/ (flags = 3 /\ n < 256) \/ p.n # i + c + 2 * (PtrSize + 32)
               THEN Broken
               ELSE LET l == ReadTree(img, RdPtr(x, i + c))
                        r == ReadTree(img, RdPtr(x, i + c + PtrSize + 32))
                    IN IF l.ok /\ r.ok /\ l.h = Sub(x, i + c + PtrSize, 32) /\ r.h = Sub(x, i + c + 2 * PtrSize + 32, 32)
                       THEN [ok |-> TRUE, m |-> l.m @@ r.m, h |-> InternalHash(n, Sub(x, i, c), l.h, r.h)]
                       ELSE Broken
          ELSE Broken

ReadRoot(img, p) ==
  IF p.f = 0 THEN [ok |-> TRUE, m |-> EmptyMap, h |-> ZeroHash]
  ELSE LET t == ReadTree(img, p) IN
       IF t.ok /\ t.h = RootOf(t.m) THEN t ELSE Broken

\* The commits up to the one at p, each [ok, m, h, at].
RECURSIVE Chain(_, _)
Chain(img, p) ==
  IF p.f = 0 THEN << >>
  ELSE LET x == BytesAt(img, [f |-> p.f, o |-> p.o, n |-> RecSize])
       IN IF ~There(img, [p EXCEPT !.n = RecSize]) \/ ~IsRec(x, img.key) THEN << Broken >>
          ELSE LET t == ReadRoot(img, RdPtr(x, 11))
               IN Append(Chain(img, RdPtr(x, 4)), [ok |-> t.ok, m |-> t.m, h |-> t.h])

ReadLog(img) == Chain(img, Newest(img))

(***************************************************************************)
(* Writing.  w = [fs, f0, base, mfs, memo]: the bytes of the files so far, *)
(* how many files there are before them, how many zeros the first of them  *)
(* starts with, a limit for the length of a file, and where the parts of   *)
(* trees are that were written.                                            *)
(***************************************************************************)
Size(w) == BLen(w.fs[Len(w.fs)]) + (IF Len(w.fs) = 1 THEN w.base ELSE 0)

Put1(w, x) ==
  IF Size(w) > w.mfs - BLen(x) THEN [w EXCEPT !.fs = Append(@, x)]
  ELSE [w EXCEPT !.fs[Len(w.fs)] = @ \o x]

\* Where the last n bytes are.
At1(w, n) == [f |-> w.f0 + Len(w.fs), o |-> Size(w) - n, n |-> n]

Known1(w, h, p) == [w EXCEPT !.memo = (h :> p) @@ @]

RECURSIVE WriteTree(_, _, _)
WriteTree(w, m, t) ==
  IF t.h \in DOMAIN w.memo THEN w
  ELSE IF t.t = "leaf" THEN
    LET w1 == Put1(w, m[t.key])
        x  == "02" \o WrPtr(At1(w1, BLen(m[t.key]))) \o t.key
        w2 == Put1(w1, x)
    IN Known1(w2, t.h, At1(w2, BLen(x)))
  ELSE
    LET w1 == WriteTree(w, m, t.l)
        w2 == WriteTree(w1, m, t.r)
        x  == (IF t.n = 0 THEN "01" ELSE IF t.n < 256 THEN "11" \o U8(t.n) \o t.bits ELSE "31" \o U16(t.n) \o t.bits)
              \o WrPtr(w2.memo[t.l.h]) \o t.l.h \o WrPtr(w2.memo[t.r.h]) \o t.r.h
        w3 == Put1(w2, x)
    IN Known1(w3, t.h, At1(w3, BLen(x)))

RECURSIVE Pad(_)
Pad(w) ==
  LET n == Size(w) % RecSize IN
  IF n = 0 THEN w ELSE Pad(Put1(w, Rep("00", RecSize - n)))

\* One more commit; prev is where the record of the last one is.
WriteCommit(w, key, prev, m) ==
  LET t  == TreeOf(m)
      w1 == IF t.t = "null" THEN w ELSE WriteTree(w, m, t)
      w2 == Pad(w1)
      x  == Magic \o WrPtr([prev EXCEPT !.n = 0]) \o (IF t.t = "null" THEN NullPtr ELSE WrPtr(w1.memo[t.h]))
  IN Put1(w2, x \o HKeyed20(x, key))

RECURSIVE WriteAll(_, _, _, _)
WriteAll(w, key, prev, log) ==
  IF log = << >> THEN w
  ELSE LET w1 == WriteCommit(w, key, prev, Head(log)) IN WriteAll(w1, key, At1(w1, RecSize), Tail(log))

NoMemo == [x \in {} |-> NoPtr]

\* An image with these commits.
WriteLog(key, log, mfs, f0, base) ==
  LET w == WriteAll([fs |-> << "" >>, f0 |-> f0, base |-> base, mfs |-> mfs, memo |-> NoMemo], key, NoPtr, log)
      off(f) == IF f = f0 + 1 THEN base ELSE 0
  IN [key |-> key,
      files |-> [f \in 1..(f0 + Len(w.fs)) |->
                   IF f <= f0 THEN [n |-> 0, s |-> << >>]
                   ELSE [n |-> off(f) + BLen(w.fs[f - f0]),
                         s |-> IF w.fs[f - f0] = "" THEN << >> ELSE << << off(f), w.fs[f - f0] >> >>]]]
=============================================================================
