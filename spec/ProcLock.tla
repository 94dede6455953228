------------------------------- MODULE ProcLock -------------------------------
(***************************************************************************)
(* How processes keep each other out of a database, system call by system  *)
(* call.  The lock is a record lock on the file `lock' of the directory;   *)
(* its holder removes the file before it lets go, so whoever gets the lock *)
(* has to check that the file it locked is still the one in the directory. *)
(*                                                                         *)
(* TLC explores all interleavings of the programs, with a process dying    *)
(* anywhere, checks the invariants, and prints every transition with a     *)
(* path to it: a schedule for real processes (lib/multi.py).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)     \* sequence of [progs, dir, kills]

VARIABLES c,        \* which case
          n, pc,    \* of every process: its call, and the system call in it that comes next
          fd,       \* the lock file it has opened (0: none)
          has,      \* it has the database open
          dir, data,   \* does the directory exist, does the database?
          link,     \* the lock file in the directory (0: none)
          owner,    \* who has the record lock of each file
          dead,
          lost,     \* somebody's data disappeared while he had the database open
          trail
state == << c, n, pc, fd, has, dir, data, link, owner, dead, lost >>
pvars == << state, trail >>

Progs == Cases[c].progs
P == 1..Len(Progs)
Files == 1..(Len(Progs) + 1)
Call(p) == Progs[p][n[p]]

Init ==
  /\ c \in 1..Len(Cases)
  /\ n = [p \in P |-> 1] /\ pc = [p \in P |-> "begin"] /\ fd = [p \in P |-> 0]
  /\ has = [p \in P |-> FALSE]
  /\ dir = Cases[c].dir /\ data = Cases[c].dir
  /\ link = 0 /\ owner = [f \in Files |-> 0]
  /\ dead = {} /\ lost = FALSE /\ trail = << >>

\* A file that nobody has open and that is not in the directory.
FreshFile == CHOOSE f \in Files : f # link /\ \A p \in P : fd[p] # f

Unlocked(own, f, p) == IF f # 0 /\ own[f] = p THEN [own EXCEPT ![f] = 0] ELSE own

\* p goes on to the system call x.
Goes(p, x) == pc' = [pc EXCEPT ![p] = x] /\ UNCHANGED << n, dead >>
\* p's call is over; h: it then has the database open.  Without another call
\* the process ends, which gives back its lock.
Ends(p, h, own, keepfd) ==
  LET last == n[p] = Len(Progs[p]) IN
  /\ n' = [n EXCEPT ![p] = @ + 1]
  /\ pc' = [pc EXCEPT ![p] = "begin"]
  /\ dead' = IF last THEN dead \union {p} ELSE dead
  /\ has' = [has EXCEPT ![p] = h /\ ~last]
  /\ fd' = [fd EXCEPT ![p] = IF keepfd /\ ~last THEN @ ELSE 0]
  /\ owner' = IF keepfd /\ ~last THEN own ELSE Unlocked(own, fd[p], p)

Begin(p) ==
  /\ pc[p] = "begin"
  /\ IF Call(p) = "open" THEN Goes(p, "o-stat") /\ UNCHANGED << fd, has, owner >>
     ELSE IF Call(p) = "destroy" THEN Goes(p, "d-open") /\ UNCHANGED << fd, has, owner >>
     ELSE IF Call(p) = "close" /\ has[p]
     THEN Goes(p, "c-unlink") /\ has' = [has EXCEPT ![p] = FALSE] /\ UNCHANGED << fd, owner >>
     ELSE Ends(p, has[p], owner, TRUE)           \* any other
  /\ UNCHANGED << dir, data, link, lost >>

OStat(p) ==
  /\ pc[p] = "o-stat" /\ Goes(p, IF dir THEN "o-open" ELSE "o-mkdir")
  /\ UNCHANGED << fd, has, owner, dir, data, link, lost >>
OMkdir(p) ==
  /\ pc[p] = "o-mkdir"
  /\ IF dir THEN Ends(p, FALSE, owner, FALSE) /\ UNCHANGED dir
            ELSE Goes(p, "o-open") /\ dir' = TRUE /\ UNCHANGED << fd, has, owner >>
  /\ UNCHANGED << data, link, lost >>
Open(p, at, next) ==
  /\ pc[p] = at
  /\ IF ~dir THEN Ends(p, FALSE, owner, FALSE) /\ UNCHANGED link
     ELSE /\ Goes(p, next) /\ UNCHANGED << has, owner >>
          /\ link' = IF link = 0 THEN FreshFile ELSE link
          /\ fd' = [fd EXCEPT ![p] = link']
  /\ UNCHANGED << dir, data, lost >>
Lock(p, at, next) ==
  /\ pc[p] = at
  /\ IF owner[fd[p]] # 0 THEN Ends(p, FALSE, owner, FALSE)
     ELSE Goes(p, next) /\ owner' = [owner EXCEPT ![fd[p]] = p] /\ UNCHANGED << fd, has >>
  /\ UNCHANGED << dir, data, link, lost >>
Check(p, at, next) ==
  /\ pc[p] = at
  /\ IF link # fd[p] THEN Ends(p, FALSE, owner, FALSE)
     ELSE Goes(p, next) /\ UNCHANGED << fd, has, owner >>
  /\ UNCHANGED << dir, data, link, lost >>
OUse(p) ==
  /\ pc[p] = "o-use" /\ Ends(p, TRUE, owner, TRUE) /\ data' = TRUE
  /\ UNCHANGED << dir, link, lost >>
Unlink(p, at, next) ==
  /\ pc[p] = at /\ Goes(p, next) /\ link' = 0
  /\ UNCHANGED << fd, has, owner, dir, data, lost >>
CUnlock(p) ==
  /\ pc[p] = "c-unlock" /\ Ends(p, FALSE, owner, FALSE)
  /\ UNCHANGED << dir, data, link, lost >>
DData(p) ==
  /\ pc[p] = "d-data" /\ Goes(p, "d-unlink")
  /\ data' = FALSE /\ lost' = (lost \/ \E q \in P \ {p} : has[q])
  /\ UNCHANGED << fd, has, owner, dir, link >>
DUnlock(p) ==
  /\ pc[p] = "d-unlock" /\ Goes(p, "d-rmdir")
  /\ owner' = Unlocked(owner, fd[p], p) /\ fd' = [fd EXCEPT ![p] = 0]
  /\ UNCHANGED << has, dir, data, link, lost >>
DRmdir(p) ==
  /\ pc[p] = "d-rmdir" /\ dir' = (dir /\ (link # 0 \/ data))
  /\ Ends(p, FALSE, owner, FALSE)
  /\ UNCHANGED << data, link, lost >>

\* p's next step.
Runs(p) ==
  \/ Begin(p)
  \/ OStat(p) \/ OMkdir(p) \/ Open(p, "o-open", "o-lock") \/ Lock(p, "o-lock", "o-check") \/ Check(p, "o-check", "o-use") \/ OUse(p)
  \/ Unlink(p, "c-unlink", "c-unlock") \/ CUnlock(p)
  \/ Open(p, "d-open", "d-lock") \/ Lock(p, "d-lock", "d-check") \/ Check(p, "d-check", "d-data") \/ DData(p)
  \/ Unlink(p, "d-unlink", "d-unlock") \/ DUnlock(p) \/ DRmdir(p)

Dies(p) ==
  /\ Cases[c].kills
  /\ \A q \in dead : n[q] > Len(Progs[q])        \* one at most
  /\ dead' = dead \union {p}
  /\ has' = [has EXCEPT ![p] = FALSE] /\ fd' = [fd EXCEPT ![p] = 0]
  /\ owner' = Unlocked(owner, fd[p], p)
  /\ UNCHANGED << n, pc, dir, data, link, lost >>

Next ==
  \E p \in P \ dead :
    /\ \/ Runs(p) /\ trail' = Append(trail, p)
       \/ Dies(p) /\ trail' = Append(trail, -p)
    /\ UNCHANGED c

(***************************************************************************)
(* What it guarantees                                                      *)
(***************************************************************************)
InUse(p) == p \notin dead /\ (has[p] \/ pc[p] \in {"o-use", "c-unlink", "d-data", "d-unlink"})
Mutex == \A p, q \in P : p # q => ~(InUse(p) /\ InUse(q))
NothingLost == ~lost
\* Whoever uses the database has the lock of the file in the directory, so
\* that others find it taken.
Guarded == \A p \in P : InUse(p) => link = fd[p] /\ link # 0 /\ owner[link] = p
\* When nobody is in a call or has the database open, it can be opened.
Free == (\A p \in P : p \in dead \/ (pc[p] = "begin" /\ ~has[p])) => (link = 0 \/ owner[link] = 0)

View == state
Emit == PrintT("@" \o ToJson([c |-> c, t |-> trail']))
=============================================================================
