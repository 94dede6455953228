------------------------------- MODULE DiskGen -------------------------------
(***************************************************************************)
(* Images of given histories, for the library to open.  The environment    *)
(* names a file of jobs [key, log, mfs, f0, base] (a log is a sequence of  *)
(* contents, each a sequence of << key, value >>) and a file for the       *)
(* results.  What is written is also read: ReadLog inverts WriteLog.       *)
(***************************************************************************)
EXTENDS Disk, Json, IOUtils

Jobs == ndJsonDeserialize(IOEnv.JOBS)

RECURSIVE MapOf(_)
MapOf(s) == IF s = << >> THEN EmptyMap ELSE (s[1][1] :> s[1][2]) @@ MapOf(Tail(s))

LogOf(job) == [j \in 1..Len(job.log) |-> MapOf(job.log[j])]

Result(job) ==
  CHOOSE r \in {[img |-> img, roots |-> [j \in 1..Len(job.log) |-> RootOf(MapOf(job.log[j]))]] :
                   img \in {WriteLog(job.key, LogOf(job), job.mfs, job.f0, job.base)}} : TRUE

VARIABLES n, res

Init == n = 0 /\ res = << >>

Next ==
  /\ n < Len(Jobs)
  /\ n' = n + 1
  /\ res' = Append(res, Result(Jobs[n + 1]))

\* Reading inverts writing.
Inverse ==
  n > 0 => \E l \in {ReadLog(res[n].img)} :
             /\ Len(l) = Len(Jobs[n].log)
             /\ \A j \in 1..Len(l) : l[j].ok /\ l[j].m = MapOf(Jobs[n].log[j]) /\ l[j].h = res[n].roots[j]

Done == n = Len(Jobs) => ndJsonSerialize(IOEnv.OUT, res)
=============================================================================
