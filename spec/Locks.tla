-------------------------------- MODULE Locks ---------------------------------
(***************************************************************************)
(* All interleavings of lock operations and memory accesses of concurrent  *)
(* calls.  Every group is a sequence of threads; a thread is the sequence  *)
(* of steps that one call (or a sequence of calls) of the real library was *)
(* recorded to make: taking (L) or releasing (U) lock l in mode m (1: to   *)
(* read, 2: to write), or accessing (A) memory: it reads the location      *)
(* classes r and writes the classes w; E ends it.  h: the locks it holds   *)
(* before the step, as pairs of lock and mode.  a: what other threads must *)
(* have done before (a thread finds memory that another one allocated only *)
(* after that one has published it), as pairs of thread and step.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Groups == JsonDeserialize(IOEnv.GROUPS)

VARIABLES g,       \* the group
          wp,      \* waiting writers keep new readers out
          pc,      \* next step of each thread
          arr      \* threads that wait for a lock to write

vars == << g, wp, pc, arr >>

Threads == 1..Len(Groups[g])
At(t) == Groups[g][t][pc[t]]
Over(t) == At(t).k = "E"

Set(s) == {s[j] : j \in 1..Len(s)}

Free(t) ==
  LET x == At(t) IN
  /\ \A u \in Threads : \A j \in 1..Len(At(u).h) :
       At(u).h[j][1] = x.l => (x.m = 1 /\ At(u).h[j][2] = 1)
  /\ wp /\ x.m = 1 => \A u \in arr : u = t \/ At(u).l # x.l

Ready(t) == \A j \in 1..Len(At(t).a) : pc[At(t).a[j][1]] > At(t).a[j][2]

Init ==
  /\ g \in 1..Len(Groups)
  /\ wp \in {TRUE, FALSE}
  /\ pc = [t \in 1..Len(Groups[g]) |-> 1]
  /\ arr = {}

Step(t) ==
  /\ ~Over(t)
  /\ CASE At(t).k = "L" -> Free(t)
       [] At(t).k = "A" -> Ready(t)
       [] OTHER -> TRUE
  /\ pc' = [pc EXCEPT ![t] = @ + 1]
  /\ arr' = arr \ {t}
  /\ UNCHANGED << g, wp >>

Wait(t) ==
  /\ wp /\ At(t).k = "L" /\ At(t).m = 2 /\ t \notin arr /\ ~Free(t)
  /\ arr' = arr \union {t}
  /\ UNCHANGED << g, wp, pc >>

Next == \E t \in Threads : Step(t) \/ Wait(t)

Spec == Init /\ [][Next]_vars

\* Somebody has not finished and nobody can go on.
Deadlock ==
  /\ \E t \in Threads : ~Over(t)
  /\ \A t \in Threads : Over(t) \/ (At(t).k = "L" /\ ~Free(t) /\ (wp /\ At(t).m = 2 => t \in arr))

\* Two threads are about to access the same memory, one of them to write.
Race ==
  \E t, u \in Threads :
    /\ t < u
    /\ At(t).k = "A" /\ At(u).k = "A" /\ Ready(t) /\ Ready(u)
    /\ \/ Set(At(t).w) \intersect (Set(At(u).w) \union Set(At(u).r)) # {}
       \/ Set(At(t).r) \intersect Set(At(u).w) # {}

NoDeadlock == Deadlock => PrintT(<< "DEADLOCK", g, wp, pc >>)
NoRace     == Race     => PrintT(<< "RACE", g, pc >>)
=============================================================================
