--------------------------------- MODULE Lin ----------------------------------
(***************************************************************************)
(* Histories of concurrent calls against module Urkel: between its         *)
(* invocation (inv) and its return (res) every call takes effect at one    *)
(* moment.  Other events come when no call is in progress.                 *)
(***************************************************************************)
EXTENDS Trace

VARIABLE pnd          \* indices of inv events of calls that have not taken effect

lvars == << tvars, pnd >>

LInit == Init /\ pnd = {}

\* A call takes effect no earlier than somebody's return needs it.
Effect ==
  /\ i <= Len(Events) /\ Events[i].op = "res" /\ (i - Events[i].back) \in pnd
  /\ \E j \in pnd : Step(Events[j].e) /\ pnd' = pnd \ {j}
  /\ UNCHANGED i

Inv_ ==
  /\ i <= Len(Events) /\ Events[i].op = "inv"
  /\ pnd' = pnd \union {i} /\ i' = i + 1
  /\ UNCHANGED << vars, dir, lim >>

Res_ ==
  /\ i <= Len(Events) /\ Events[i].op = "res" /\ (i - Events[i].back) \notin pnd
  /\ i' = i + 1
  /\ UNCHANGED << vars, dir, lim, pnd >>

Other ==
  /\ i <= Len(Events) /\ Events[i].op \notin {"inv", "res"}
  /\ pnd = {}
  /\ Step(Events[i]) /\ i' = i + 1
  /\ UNCHANGED pnd

LNext == Effect \/ Inv_ \/ Res_ \/ Other
=============================================================================
