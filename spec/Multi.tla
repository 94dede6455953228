-------------------------------- MODULE Multi ---------------------------------
(***************************************************************************)
(* Histories of several processes that use one database.  As in Lin, every *)
(* call takes effect at one moment between its invocation (inv) and its    *)
(* return (res); a process may be killed (pkill), in a call or not.        *)
(*                                                                         *)
(* What the processes share is who holds the database (holder, 0: nobody). *)
(* All that a process does with the database open is judged by Trace; so   *)
(* is what comes when no process is in a call, which process 9 does.       *)
(***************************************************************************)
EXTENDS Trace

VARIABLES pnd,      \* indices of inv events of calls that have not taken effect
          act,      \* indices of inv events of calls that have not returned
          cont,     \* those that got in the way of one that closes or destroys
          holder,
          wild      \* a destroy was interrupted: who knows what is left

mvars == << tvars, pnd, act, cont, holder, wild >>

MInit == Init /\ pnd = {} /\ act = {} /\ cont = {} /\ holder = 0 /\ wild = FALSE

Kind(e) == IF e.op = "unfinished" THEN e.in ELSE e.op
Keep == UNCHANGED << holder, wild >>
Maybe == dir' = [dir EXCEPT !.exists = IF @ = "yes" THEN "yes" ELSE "maybe"]

\* c: the call was contended.
MOpen(e, p, c) ==
  IF Ok(e)
  THEN /\ holder = 0 /\ holder' = p
       /\ IF wild THEN Quiet ELSE Open /\ dir' = [dir EXCEPT !.exists = "yes"] /\ UNCHANGED lim
       /\ UNCHANGED wild
  ELSE /\ e.err = EBADOPEN
       /\ holder # 0 \/ c \/ wild
       /\ Same /\ UNCHANGED lim /\ Maybe /\ Keep

MClose(e, p) ==
  /\ holder = p /\ holder' = 0
  /\ IF wild THEN Quiet ELSE CloseE(e)
  /\ UNCHANGED wild

MDestroy(e, p, c) ==
  IF Ok(e)
  THEN /\ holder = 0
       /\ wild \/ c \/ dir.exists # "no"      \* an open may be about to create it
       /\ Destroy /\ dir' = [dir EXCEPT !.exists = "no", !.half = FALSE]
       /\ wild' = FALSE
       /\ UNCHANGED << lim, holder >>
  ELSE /\ e.err = EBADOPEN
       /\ \/ /\ holder # 0 \/ c \/ wild \/ dir.exists # "yes"
             /\ Quiet
          \/ /\ c /\ holder = 0         \* the data, but not the directory
             /\ Destroy /\ dir' = [dir EXCEPT !.exists = "maybe"] /\ UNCHANGED lim
       /\ Keep

MStep(e, p, c) ==
  CASE e.op = "open"    -> MOpen(e, p, c)
    [] e.op = "close"   -> MClose(e, p)
    [] e.op = "destroy" -> MDestroy(e, p, c)
    [] e.op = "unfinished" ->
         \/ e.in = "open" /\ MOpen([ret |-> 1], p, c)
         \/ e.in = "close" /\ MClose(e, p)
         \/ /\ e.in = "destroy" /\ holder = 0
            /\ Destroy /\ dir' = [dir EXCEPT !.exists = "maybe"] /\ UNCHANGED lim
            /\ Keep
    [] OTHER -> holder = p /\ (IF wild THEN Quiet ELSE Step(e)) /\ Keep

\* A call takes effect no earlier than somebody's return or death needs it.
Awaited ==
  /\ i <= Len(Events)
  /\ \/ Events[i].op = "res" /\ (i - Events[i].back) \in pnd
     \/ Events[i].op = "pkill" /\ Events[i].back > 0 /\ (i - Events[i].back) \in pnd

Effect ==
  /\ Awaited
  /\ \E j \in pnd : MStep(Events[j].e, Events[j].p, j \in cont) /\ pnd' = pnd \ {j}
  /\ UNCHANGED << i, act, cont >>

Life == {"open", "close", "destroy"}
Ends == {"close", "destroy"}

Inv_ ==
  /\ i <= Len(Events) /\ Events[i].op = "inv"
  /\ \E k \in {Kind(Events[i].e)} :
     \E met \in {{j \in act : \E l \in {Kind(Events[j].e)} :
                    k \in Life /\ l \in Life /\ (k \in Ends \/ l \in Ends \/ j \in cont)}} :
       cont' = cont \union met \union (IF met # {} THEN {i} ELSE {})
  /\ pnd' = pnd \union {i} /\ act' = act \union {i} /\ i' = i + 1
  /\ UNCHANGED << vars, dir, lim >> /\ Keep

Res_ ==
  /\ i <= Len(Events) /\ Events[i].op = "res" /\ (i - Events[i].back) \notin pnd
  /\ act' = act \ {i - Events[i].back} /\ cont' = cont \ {i - Events[i].back}
  /\ i' = i + 1
  /\ UNCHANGED << vars, dir, lim, pnd >> /\ Keep

Forget ==       \* nothing of this is looked at until the database is destroyed
  /\ log' = << >> /\ limbo' = {} /\ pend' = {} /\ isopen' = FALSE /\ head' = Empty
  /\ txs' = NoFun /\ iters' = NoFun

\* The death of a process, in the call invoked at j (0: in none).
Dies(e, p, j) ==
  IF holder = p
  THEN /\ holder' = 0
       /\ IF wild THEN Quiet ELSE CrashE(e)
       /\ UNCHANGED wild
  ELSE /\ UNCHANGED << lim, holder >>
       /\ Maybe
       /\ wild' = (wild \/ (e.in = "destroy" /\ j \in pnd /\ (holder = 0 \/ j \in cont)))
       /\ IF wild' THEN Forget ELSE Same

Kill_ ==
  /\ i <= Len(Events) /\ Events[i].op = "pkill"
  /\ \E j \in {IF Events[i].back > 0 THEN i - Events[i].back ELSE 0} :
       /\ Dies(Events[i], Events[i].p, j)
       /\ pnd' = pnd \ {j} /\ act' = act \ {j} /\ cont' = cont \ {j}
  /\ i' = i + 1

\* A call waits for another process: it may do so only for one that is busy
\* closing or destroying, never for one that has the database open.
Wait_ ==
  /\ i <= Len(Events) /\ Events[i].op = "wait"
  /\ (i - Events[i].back) \in cont
  /\ i' = i + 1
  /\ UNCHANGED << vars, dir, lim, pnd, act, cont >> /\ Keep

Other ==
  /\ i <= Len(Events) /\ Events[i].op \notin {"inv", "res", "pkill", "wait"}
  /\ pnd = {} /\ act = {}
  /\ IF Events[i].op = "new" THEN NewE(Events[i]) /\ holder' = 0 /\ wild' = FALSE
     ELSE IF Events[i].op \in {"nocut", "limits"} THEN Step(Events[i]) /\ Keep
     ELSE IF Events[i].op = "crash" THEN Dies(Events[i], 9, 0)
     ELSE MStep(Events[i], 9, FALSE)
  /\ i' = i + 1
  /\ UNCHANGED << pnd, act, cont >>

MNext == Effect \/ Inv_ \/ Res_ \/ Kill_ \/ Wait_ \/ Other
=============================================================================
