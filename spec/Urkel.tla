------------------------------- MODULE Urkel --------------------------------
(***************************************************************************)
(* The database as its users see it.                                       *)
(*                                                                         *)
(* A contents is a function from keys to values.  Root gives its root      *)
(* hash; module Merkle defines the real one, and the bounded models use    *)
(* the contents itself, which is injective as the real hash is assumed to  *)
(* be.                                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Root(_),      \* root hash of a contents
          TooBig(_),    \* value longer than the maximum
          Sorted(_)     \* sequence of the keys of a contents in ascending order

VARIABLES log,     \* sequence of commits [m, r, pos, f], oldest first: what is on disk;
                   \* f: the contents of commits that failed since the one before
          limbo,   \* contents of failed commits that a reopening may reveal
          pend,    \* contents of failed commits that wait in the write buffer
          isopen,  \* some process has the database open
          head,    \* contents that database-level calls work on
          txs,     \* function from transaction names to their contents
          iters    \* function from iterator names to [m, rest]

vars == << log, limbo, pend, isopen, head, txs, iters >>

Empty == [k \in {} |-> ""]
NoFun == [x \in {} |-> Empty]
NoPos == << 0, 0 >>

Put(m, k, v) == [x \in DOMAIN m \union {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k)    == [x \in DOMAIN m \ {k} |-> m[x]]

Last(s) == s[Len(s)]
Committed == IF log = << >> THEN Empty ELSE Last(log).m

\* Roots that name a contents: the empty one and every committed one.
Known(r) == r = Root(Empty) \/ \E i \in 1..Len(log) : log[i].r = r
MapAt(r) == IF r = Root(Empty) THEN Empty ELSE (CHOOSE e \in {log[i] : i \in 1..Len(log)} : e.r = r).m

Fresh ==                        \* no database
  /\ log = << >> /\ limbo = {} /\ pend = {} /\ isopen = FALSE /\ head = Empty /\ txs = NoFun /\ iters = NoFun

(***************************************************************************)
(* Opening, closing, dying                                                 *)
(***************************************************************************)
Entry(m, pos) == [m |-> m, r |-> Root(m), pos |-> pos, f |-> limbo \union pend]

OpenAs(m) ==
  /\ ~isopen
  /\ isopen' = TRUE /\ limbo' = {} /\ pend' = {} /\ head' = m
  /\ UNCHANGED << txs, iters >>

Open ==
  \/ OpenAs(Committed) /\ UNCHANGED log
  \/ \E m \in limbo : OpenAs(m) /\ log' = Append(log, Entry(m, NoPos))

Close ==
  /\ isopen /\ txs = NoFun /\ iters = NoFun
  /\ isopen' = FALSE /\ head' = Empty /\ pend' = {}
  /\ UNCHANGED << log, limbo, txs, iters >>

\* The process is killed; `more' are the contents a commit in progress may
\* have made durable.
Crash(more) ==
  /\ \/ UNCHANGED log
     \/ \E m \in more \union limbo \union (IF more = {} THEN {} ELSE pend) : log' = Append(log, Entry(m, NoPos))
  /\ limbo' = {} /\ pend' = {} /\ isopen' = FALSE /\ head' = Empty /\ txs' = NoFun /\ iters' = NoFun

Destroy ==
  /\ ~isopen
  /\ log' = << >> /\ limbo' = {} /\ pend' = {}
  /\ UNCHANGED << isopen, head, txs, iters >>

\* Only the first n commits survive (damage, power loss), or, in place of the
\* next one, one that had failed before it.
Lose(n) ==
  /\ ~isopen
  /\ n \in 0..Len(log)
  /\ log' = SubSeq(log, 1, n) /\ limbo' = (IF n = Len(log) THEN limbo ELSE log[n + 1].f) /\ pend' = {}
  /\ UNCHANGED << isopen, head, txs, iters >>

(***************************************************************************)
(* Transactions                                                            *)
(***************************************************************************)
IsTx(t) == isopen /\ t \in DOMAIN txs

SetTx(t, m) == txs' = [x \in DOMAIN txs \union {t} |-> IF x = t THEN m ELSE txs[x]]

TxCreate(t) ==
  /\ isopen /\ t \notin DOMAIN txs
  /\ SetTx(t, head)
  /\ UNCHANGED << log, limbo, pend, isopen, head, iters >>

TxCreateAt(t, r) ==
  /\ isopen /\ t \notin DOMAIN txs /\ Known(r)
  /\ SetTx(t, MapAt(r))
  /\ UNCHANGED << log, limbo, pend, isopen, head, iters >>

TxDestroy(t) ==
  /\ IsTx(t)
  /\ txs' = [x \in DOMAIN txs \ {t} |-> txs[x]]
  /\ UNCHANGED << log, limbo, pend, isopen, head, iters >>

TxClear(t) ==
  /\ IsTx(t)
  /\ SetTx(t, head)
  /\ UNCHANGED << log, limbo, pend, isopen, head, iters >>

TxInject(t, r) ==
  /\ IsTx(t) /\ Known(r)
  /\ SetTx(t, MapAt(r))
  /\ UNCHANGED << log, limbo, pend, isopen, head, iters >>

TxInsert(t, k, v) ==
  /\ IsTx(t) /\ ~TooBig(v)
  /\ SetTx(t, Put(txs[t], k, v))
  /\ UNCHANGED << log, limbo, pend, isopen, head, iters >>

TxRemove(t, k) ==
  /\ IsTx(t) /\ k \in DOMAIN txs[t]
  /\ SetTx(t, Del(txs[t], k))
  /\ UNCHANGED << log, limbo, pend, isopen, head, iters >>

CommitMap(m, pos) ==
  /\ log' = Append(log, Entry(m, pos))
  /\ limbo' = {} /\ pend' = {} /\ head' = m

TxCommitAt(t, pos) ==
  /\ IsTx(t)
  /\ CommitMap(txs[t], pos)
  /\ UNCHANGED << isopen, txs, iters >>
TxCommit(t) == TxCommitAt(t, NoPos)

\* A commit of contents m fails.  If `seen', the record may nevertheless have
\* reached the disk.  What could not be written waits in the write buffer and
\* goes out ahead of the next commit.
CommitFails(m, seen) ==
  /\ limbo' = limbo \union pend \union (IF seen THEN {m} ELSE {})
  /\ pend' = pend \union {m}
  /\ UNCHANGED << log, isopen, head, txs, iters >>

(***************************************************************************)
(* Database-level calls                                                    *)
(***************************************************************************)
DbInsertAt(k, v, pos) ==
  /\ isopen /\ ~TooBig(v)
  /\ CommitMap(Put(head, k, v), pos)
  /\ UNCHANGED << isopen, txs, iters >>
DbInsert(k, v) == DbInsertAt(k, v, NoPos)

DbRemoveAt(k, pos) ==
  /\ isopen /\ k \in DOMAIN head
  /\ CommitMap(Del(head, k), pos)
  /\ UNCHANGED << isopen, txs, iters >>
DbRemove(k) == DbRemoveAt(k, NoPos)

Revert(r) ==
  /\ isopen /\ Known(r)
  /\ head' = MapAt(r)
  /\ UNCHANGED << log, limbo, pend, isopen, txs, iters >>

(***************************************************************************)
(* Iterators                                                               *)
(***************************************************************************)
IterCreate(i, m) ==
  /\ isopen /\ i \notin DOMAIN iters
  /\ iters' = [x \in DOMAIN iters \union {i} |->
                 IF x = i THEN [m |-> m, rest |-> Sorted(m)] ELSE iters[x]]
  /\ UNCHANGED << log, limbo, pend, isopen, head, txs >>

IterNext(i) ==
  /\ isopen /\ i \in DOMAIN iters
  /\ iters' = [iters EXCEPT ![i].rest = IF @ = << >> THEN @ ELSE Tail(@)]
  /\ UNCHANGED << log, limbo, pend, isopen, head, txs >>

IterDestroy(i) ==
  /\ isopen /\ i \in DOMAIN iters
  /\ iters' = [x \in DOMAIN iters \ {i} |-> iters[x]]
  /\ UNCHANGED << log, limbo, pend, isopen, head, txs >>
=============================================================================
