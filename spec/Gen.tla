-------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Bounded instances of module Urkel.  TLC explores them, checks the       *)
(* properties below, and prints every transition together with a shortest  *)
(* path to it; lib/gen.py turns those into scripts for the real library.   *)
(* Keys and values are numbers, and a contents is its own root.            *)
(***************************************************************************)
EXTENDS Urkel, TLC, Json

CONSTANTS K, V,         \* keys, values
          T,            \* transactions
          MaxLog,       \* commits
          MaxLevel,     \* length of a behaviour
          Acts          \* kinds of calls

VARIABLE trail

GRoot(m) == m
GTooBig(v) == FALSE
GSorted(m) ==
  LET RECURSIVE S(_)
      S(D) == IF D = {} THEN << >>
              ELSE LET x == CHOOSE y \in D : \A z \in D : y <= z IN << x >> \o S(D \ {x})
  IN S(DOMAIN m)

gvars == << vars, trail >>

Do(op) == trail' = Append(trail, op)

\* Roots are named in scripts by the position of a commit that has them; 0 is
\* the empty root and -1 a root that was never committed.
Pos_(r) == IF r = Root(Empty) THEN 0
           ELSE CHOOSE j \in 1..Len(log) : log[j].r = r /\ \A k \in 1..Len(log) : log[k].r = r => k <= j
Roots == {Root(Empty)} \union {log[j].r : j \in 1..Len(log)}

Has(a) == a \in Acts

\* A call that fails and changes nothing.
Nop(op) == UNCHANGED vars /\ Do(op)

GNext ==
  \/ ~isopen /\ Has("open") /\ Open /\ Do(<< "open" >>)
  \/ isopen /\ Has("close") /\ Close /\ Do(<< "close" >>)
  \/ isopen /\ Has("kill") /\ Crash({}) /\ Do(<< "kill" >>)
  \/ ~isopen /\ Has("destroy") /\ log # << >> /\ Destroy /\ Do(<< "destroy" >>)
  \/ \E t \in T :
       \/ Has("tx") /\ TxCreate(t) /\ Do(<< "tx", t >>)
       \/ Has("txat") /\ \E r \in Roots : TxCreateAt(t, r) /\ Do(<< "tx", t, Pos_(r) >>)
       \/ Has("txat") /\ Has("bad") /\ isopen /\ t \notin DOMAIN txs /\ Nop(<< "tx", t, 9 >>)
       \/ Has("txdel") /\ TxDestroy(t) /\ Do(<< "txdel", t >>)
       \/ Has("txclear") /\ TxClear(t) /\ Do(<< "txclear", t >>)
       \/ Has("txinject") /\ \E r \in Roots : TxInject(t, r) /\ Do(<< "txinject", t, Pos_(r) >>)
       \/ Has("txinject") /\ Has("bad") /\ IsTx(t) /\ Nop(<< "txinject", t, 9 >>)
       \/ \E k \in K, v \in V : Has("txins") /\ TxInsert(t, k, v) /\ Do(<< "txins", t, k, v >>)
       \/ \E k \in K : Has("txrem") /\ TxRemove(t, k) /\ Do(<< "txrem", t, k >>)
       \/ \E k \in K : Has("txrem") /\ Has("bad") /\ IsTx(t) /\ k \notin DOMAIN txs[t] /\ Nop(<< "txrem", t, k >>)
       \/ Has("commit") /\ Len(log) < MaxLog /\ TxCommit(t) /\ Do(<< "commit", t >>)
  \/ \E k \in K, v \in V : Has("ins") /\ Len(log) < MaxLog /\ DbInsert(k, v) /\ Do(<< "ins", k, v >>)
  \/ \E k \in K : Has("rem") /\ Len(log) < MaxLog /\ DbRemove(k) /\ Do(<< "rem", k >>)
  \/ Has("revert") /\ \E r \in Roots : Revert(r) /\ Do(<< "revert", Pos_(r) >>)
  \/ Has("revert") /\ Has("bad") /\ isopen /\ Nop(<< "revert", 9 >>)

GInit == Fresh /\ trail = << >>

Emit == PrintT("@" \o ToJson(trail'))            \* every transition
EmitWalk == TLCGet("level") >= MaxLevel => PrintT("@" \o ToJson(trail))   \* random walks
Bound == TLCGet("level") <= MaxLevel

View == vars

(***************************************************************************)
(* What the specification itself guarantees                                *)
(***************************************************************************)
LastOp == trail'[Len(trail')]
Kind == LastOp[1]

TypeOK ==
  /\ \A j \in 1..Len(log) : DOMAIN log[j].m \subseteq K /\ log[j].r = Root(log[j].m)
  /\ DOMAIN txs \subseteq T
  /\ ~isopen => txs = NoFun /\ head = Empty

\* C06: a transaction's contents change only through its own calls.
Isolation ==
  [][\A t \in DOMAIN txs \intersect DOMAIN txs' :
       txs'[t] # txs[t] => Kind \in {"txins", "txrem", "txclear", "txinject"} /\ LastOp[2] = t]_gvars
\* C08: commits are never forgotten (except by destroying).
History ==
  [][Kind # "destroy" => /\ Len(log') >= Len(log)
                         /\ \A j \in 1..Len(log) : log'[j] = log[j]]_gvars
\* C07, C09: the head moves only by commits, reverts and opening.
HeadMoves ==
  [][head' # head => Kind \in {"commit", "ins", "rem", "revert", "open", "close", "kill"}]_gvars
\* C07: what opening finds is the last commit.
OpenFinds == [][Kind = "open" => head' = Committed]_gvars
CommitSets == [][Kind = "commit" => head' = txs[LastOp[2]] /\ txs' = txs /\ Committed' = head']_gvars
=============================================================================
