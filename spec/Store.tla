-------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* How commits reach the disk and are found again: the write buffer, the   *)
(* files that are appended to, commit records, recovery, writes that fail, *)
(* the death of the process and power failures.                            *)
(*                                                                         *)
(* The unit is a cell.  A record takes R cells and starts at a multiple of *)
(* R; a file has at most Max cells; the data of a commit is one piece of   *)
(* some cells (or nothing, when what it needs was written before).         *)
(* Attempts to commit are numbered; a record holds where the data is and   *)
(* where the record of the commit before is.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS R, Max, Sizes,  \* cells of a record, of a file, and sizes of data
          Tries,          \* attempts
          Faults,         \* failures, deaths and power failures
          Sync,           \* every commit is synced
          MaxLevel

VARIABLES disk,     \* the files: sequences of cells
          synced,   \* how many cells of each are durable
          recs,     \* the records, by the number of their attempt
          done,     \* the commits a user knows of, oldest first
          sure,     \* those that succeeded
          mem,      \* what the process knows, or Dead
          faults,   \* how many there were
          trail

vars == << disk, synced, recs, done, sure, mem, faults >>
svars == << vars, trail >>

Dead == [up |-> FALSE]
NoPtr == [f |-> 0, o |-> 0]
NoData == [f |-> 0, o |-> 0, n |-> 0, c |-> 0]

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Min(a, b) == IF a < b THEN a ELSE b
Data(c, n) == [j \in 1..n |-> << "d", c, j >>]
Record(c) == [j \in 1..R |-> << "r", c, j >>]
Padding(n) == [j \in 1..n |-> << "p", 0, 0 >>]
Piece(d, f, o, n) == IF f \in 1..Len(d) /\ o + n <= Len(d[f]) THEN SubSeq(d[f], o + 1, o + n) ELSE << "gone" >>

(***************************************************************************)
(* The write buffer: chunks of cells, one for each file they go to.        *)
(***************************************************************************)
Put(m, x) ==
  LET roll == m.fp + Len(x) > Max IN
  [m EXCEPT !.chunks = IF roll THEN Append(@, x) ELSE [@ EXCEPT ![Len(@)] = @ \o x],
            !.fi = IF roll THEN @ + 1 ELSE @,
            !.fp = (IF roll THEN 0 ELSE @) + Len(x)]

RECURSIVE Pad(_)
Pad(m) == IF (m.fp % R) = 0 THEN m ELSE Pad(Put(m, Padding(R - (m.fp % R))))

\* Attempt c with n cells of data: [m, data, at].
Buffered(m, c, n) ==
  LET m1 == IF n = 0 THEN m ELSE Put(m, Data(c, n))
      data == IF n = 0 THEN m.data ELSE [f |-> m1.fi, o |-> m1.fp - n, n |-> n, c |-> c]
      m2 == Put(Pad(m1), Record(c))
  IN [m |-> [m2 EXCEPT !.data = data], data |-> data, at |-> [f |-> m2.fi, o |-> m2.fp - R]]

(***************************************************************************)
(* Writing chunks k, k+1, ... ; the write of chunk `bad' stops after j     *)
(* cells.  s is [d, syn, m].                                               *)
(***************************************************************************)
NeedsRoll(s, x) == s.m.size + Len(x) > Max

Roll(s) ==
  [d   |-> IF Len(s.d) = s.m.cur THEN Append(s.d, << >>) ELSE s.d,
   syn |-> [f \in 1..(IF Len(s.d) = s.m.cur THEN Len(s.d) + 1 ELSE Len(s.d)) |->
              IF f = s.m.cur THEN Len(s.d[f]) ELSE IF f <= Len(s.syn) THEN s.syn[f] ELSE 0],
   m   |-> [s.m EXCEPT !.cur = @ + 1, !.size = 0, !.torn = FALSE]]

\* What is left of a write that stopped is removed before the next one.
Clean(s) ==
  IF ~s.m.torn THEN s
  ELSE [s EXCEPT !.d[s.m.cur] = SubSeq(@, 1, s.m.size), !.syn[s.m.cur] = Min(@, s.m.size), !.m.torn = FALSE]

Write(s, x, j) ==
  IF x = << >> THEN s
  ELSE LET s1 == Clean(IF NeedsRoll(s, x) THEN Roll(s) ELSE s)
           s2 == [s1 EXCEPT !.d[s1.m.cur] = @ \o SubSeq(x, 1, j)]
       IN IF j = Len(x) THEN [s2 EXCEPT !.m.size = @ + j] ELSE [s2 EXCEPT !.m.torn = TRUE]

RECURSIVE Flush(_, _, _, _)
Flush(s, k, bad, j) ==
  IF k > Len(s.m.chunks) THEN s
  ELSE IF k = bad THEN LET s1 == Write(s, s.m.chunks[k], j) IN [s1 EXCEPT !.m.start = k]
  ELSE Flush(Write(s, s.m.chunks[k], Len(s.m.chunks[k])), k + 1, bad, j)

Now(m) == [d |-> disk, syn |-> synced, m |-> m]

(***************************************************************************)
(* Recovery                                                                *)
(***************************************************************************)
IsRec(x) == Len(x) = R /\ x[1][1] = "r" /\ x = Record(x[1][2])

RECURSIVE Find(_, _)
Find(file, o) ==   \* the end of the last record that ends at or before o, or 0
  IF o < R THEN 0
  ELSE IF IsRec(SubSeq(file, o - R + 1, o)) THEN o
  ELSE Find(file, o - R)

Ends(d) == [f \in 1..Len(d) |-> Find(d[f], Len(d[f]) - (Len(d[f]) % R))]
Holders(d) == {f \in 1..Len(d) : Ends(d)[f] > 0}
Newest(d) == IF Holders(d) = {} THEN 0 ELSE CHOOSE f \in Holders(d) : \A g \in Holders(d) : g <= f
\* The number of the newest record, or 0.
Found(d) == LET f == Newest(d) IN IF f = 0 THEN 0 ELSE d[f][Ends(d)[f]][2]

(***************************************************************************)
(* What a reader finds, starting from record c                             *)
(***************************************************************************)
DataOk(d, p) == p.n = 0 \/ Piece(d, p.f, p.o, p.n) = Data(p.c, p.n)

RECURSIVE Reach(_, _)
Reach(d, p) ==   \* the commits from the record at p on, newest first; 0 for one that cannot be read
  IF p.f = 0 THEN << >>
  ELSE LET x == Piece(d, p.f, p.o, R) IN
       IF ~IsRec(x) THEN << 0 >>
       ELSE << IF DataOk(d, recs[x[1][2]].data) THEN x[1][2] ELSE 0 >> \o Reach(d, recs[x[1][2]].prev)

At(d) == LET f == Newest(d) IN IF f = 0 THEN NoPtr ELSE [f |-> f, o |-> Ends(d)[f] - R]
Survive(d) == Reach(d, At(d))

(***************************************************************************)
(* Steps                                                                   *)
(***************************************************************************)
Do(op) == trail' = Append(trail, op)
Fault == faults < Faults /\ faults' = faults + 1

Open ==
  /\ ~mem.up
  /\ LET f == Newest(disk)
         d == IF f = 0 THEN << << >> >> ELSE [g \in 1..f |-> IF g = f THEN SubSeq(disk[f], 1, Ends(disk)[f]) ELSE disk[g]]
         n == Len(d)
         c == Found(disk)
     IN /\ disk' = d
        /\ synced' = [g \in 1..n |-> IF g <= Len(synced) THEN Min(synced[g], Len(d[g])) ELSE 0]
        /\ mem' = [up |-> TRUE, chunks |-> << << >> >>, start |-> 1, fi |-> n, fp |-> Len(d[n]), cur |-> n, size |-> Len(d[n]),
                   torn |-> FALSE, last |-> At(disk), data |-> IF c = 0 THEN NoData ELSE recs[c].data]
        \* a commit that had failed may turn up
        /\ done' = IF c = 0 \/ (done # << >> /\ Last(done) = c) THEN done ELSE Append(done, c)
  /\ UNCHANGED << recs, sure, faults >> /\ Do(<< "open" >>)

\* Death during recovery: some of the files without records are gone.
OpenDies ==
  /\ ~mem.up /\ Fault
  /\ \E n \in 1..(Len(disk) - Newest(disk)) :
       /\ disk' = SubSeq(disk, 1, Len(disk) - n) /\ synced' = SubSeq(synced, 1, Len(disk) - n)
       /\ Do(<< "opendies", n >>)
  /\ UNCHANGED << recs, done, sure, mem >>

Close == /\ mem.up /\ mem' = Dead /\ UNCHANGED << disk, synced, recs, done, sure, faults >> /\ Do(<< "close" >>)

Attempt(n, b) ==
  /\ mem.up /\ Len(recs) < Tries
  /\ recs' = Append(recs, [prev |-> mem.last, data |-> b.data])

Commit(n) ==
  LET b == Buffered(mem, Len(recs) + 1, n) IN
  /\ Attempt(n, b)
  /\ LET s == Flush(Now(b.m), b.m.start, 0, 0) IN
     /\ disk' = s.d
     /\ synced' = IF Sync THEN [s.syn EXCEPT ![s.m.cur] = Len(s.d[s.m.cur])] ELSE s.syn
     /\ mem' = [s.m EXCEPT !.chunks = << << >> >>, !.start = 1, !.last = b.at]
  /\ done' = Append(done, Len(recs')) /\ sure' = sure \union {Len(recs')}
  /\ UNCHANGED faults /\ Do(<< "commit", n >>)

\* The write of chunk k stops after j cells.
CommitFails(n) ==
  LET b == Buffered(mem, Len(recs) + 1, n) IN
  /\ Attempt(n, b) /\ Fault
  /\ \E k \in b.m.start..Len(b.m.chunks) : b.m.chunks[k] # << >> /\ \E j \in 0..(Len(b.m.chunks[k]) - 1) :
       LET s == Flush(Now(b.m), b.m.start, k, j) IN
       /\ disk' = s.d /\ synced' = s.syn /\ mem' = s.m
       /\ Do(<< "fail", n, k - b.m.start + 1, j, Len(b.m.chunks[k]) >>)
  /\ UNCHANGED << done, sure >>

\* Everything was written, but not synced.
SyncFails(n) ==
  LET b == Buffered(mem, Len(recs) + 1, n) IN
  /\ Sync /\ Attempt(n, b) /\ Fault
  /\ LET s == Flush(Now(b.m), b.m.start, 0, 0) IN
     disk' = s.d /\ synced' = s.syn /\ mem' = [s.m EXCEPT !.chunks = << << >> >>, !.start = 1]
  /\ UNCHANGED << done, sure >> /\ Do(<< "nosync", n >>)

CommitDies(n) ==
  LET b == Buffered(mem, Len(recs) + 1, n) IN
  /\ Attempt(n, b) /\ Fault
  /\ \E k \in b.m.start..Len(b.m.chunks) : b.m.chunks[k] # << >> /\ \E j \in 0..Len(b.m.chunks[k]) :
       LET s == Flush(Now(b.m), b.m.start, k, j) IN
       /\ disk' = s.d /\ synced' = s.syn
       /\ Do(<< "die", n, k - b.m.start + 1, j, Len(b.m.chunks[k]) >>)
  /\ mem' = Dead /\ UNCHANGED << done, sure >>

Dies == /\ mem.up /\ Fault /\ mem' = Dead /\ UNCHANGED << disk, synced, recs, done, sure >> /\ Do(<< "kill" >>)

RECURSIVE Cuts(_)
Cuts(n) == IF n = 0 THEN {<< >>} ELSE {Append(c, x) : c \in Cuts(n - 1), x \in synced[n]..Len(disk[n])}

\* Every file falls back to some length not below what is durable.
PowerFails ==
  /\ ~mem.up /\ Fault
  /\ \E f \in 1..Len(disk) : synced[f] < Len(disk[f])
  /\ \E cut \in Cuts(Len(disk)) :
       /\ LET d == [f \in 1..Len(disk) |-> SubSeq(disk[f], 1, cut[f])]
              alive == {Survive(d)[x] : x \in 1..Len(Survive(d))} IN
          /\ disk' = d
          /\ done' = SelectSeq(done, LAMBDA c : c \in alive \/ (Sync /\ c \in sure))
          /\ synced' = [f \in 1..Len(disk) |-> cut[f]]
       /\ Do(<< "power" >> \o [f \in 1..Len(disk) |-> cut[f]])
  /\ UNCHANGED << recs, sure, mem >>

Init ==
  /\ disk = << >> /\ synced = << >> /\ recs = << >> /\ done = << >> /\ sure = {} /\ mem = Dead /\ faults = 0 /\ trail = << >>

Next ==
  \/ Open \/ OpenDies \/ Close \/ Dies \/ PowerFails
  \/ \E n \in Sizes : Commit(n) \/ CommitFails(n) \/ SyncFails(n) \/ CommitDies(n)
  \/ mem.up /\ mem.data # NoData /\ (Commit(0) \/ CommitFails(0) \/ CommitDies(0))

Bound == TLCGet("level") <= MaxLevel
View == vars
Emit == PrintT("@" \o ToJson(trail'))
EmitWalk == TLCGet("level") >= MaxLevel => PrintT("@" \o ToJson(trail))

(***************************************************************************)
(* What it guarantees                                                      *)
(***************************************************************************)
\* C10-C12, C23: whatever happens, opening finds the last commit that succeeded or an attempt after it ...
LastFound == done # << >> => LET c == Found(disk) IN c >= Last(done)
\* ... and behind it every commit that succeeded, with its data.
AllReadable ==
  LET s == Survive(disk) IN
  /\ \A x \in 1..Len(s) : s[x] # 0
  /\ \A i \in 1..Len(done) : \E x \in 1..Len(s) : s[x] = done[i]
\* C08: history goes back in order.
Ordered == LET s == Survive(disk) IN \A x \in 1..(Len(s) - 1) : s[x] > s[x + 1]
\* C15: files are full before the next one begins, and never too long.
FilesFit == \A f \in 1..Len(disk) : Len(disk[f]) <= Max
\* A file that was left behind never changes.
OldFilesStay ==
  [][mem.up /\ mem'.up => \A f \in 1..(mem.cur - 1) : f <= Len(disk') /\ disk'[f] = disk[f]]_svars
=============================================================================
