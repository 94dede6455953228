------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks a trace recorded from the real library against module Urkel: is  *)
(* there a behaviour of the specification with exactly these calls and     *)
(* results?  Every event names a call, its arguments, its result and how   *)
(* many system calls were made to fail during it (f, fk).                  *)
(***************************************************************************)
EXTENDS Integers, Disk, Urkel, Path, Json, IOUtils, TLCExt

Events == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,      \* next event
          dir,    \* what else there is to say about the directory
          lim     \* [mfs, mof]

tvars == << vars, i, dir, lim >>

VTooBig(v) == BLen(v) > MaxValue

Range(s) == {s[j] : j \in 1..Len(s)}

\* exists: does the directory?  foreign: names in it that are not the database's.
\* half: a destroy was interrupted.  hurt: parts of files are missing ("cut"), or
\* whole files ("gone").  cur: its path, if it matters.  shelf: the
\* other databases, by path.
NoShelf == [x \in {} |-> 0]
NoDir == [exists |-> "no", foreign |-> {}, half |-> FALSE, hurt |-> "no", cur |-> "", shelf |-> NoShelf]
NoLim == [mfs |-> 1000000000, mof |-> 32]

Same == UNCHANGED vars
Quiet == Same /\ UNCHANGED << dir, lim >>

\* Result of a call that succeeded, or failed with the given error.
Ok(e)      == e.ret = 1
Err(e, n)  == e.ret = 0 /\ e.err = n
\* Injected failures and missing data may turn any read into this.
Hurt       == dir.hurt # "no"
Faulty(e)  == (e.f > 0 \/ Hurt) /\ Err(e, ECORRUPTION)
Lost(x)    == Hurt /\ Err(x, ECORRUPTION)
\* A call that fails returns nothing.
Nothing(e) == e.ret = 0 => e.n = 0

\* The contents a call at root r ("": the current one) works on.
Known_(r) == r = "" \/ Known(r)
At(r)     == IF r = "" THEN head ELSE MapAt(r)

(***************************************************************************)
(* Lookups                                                                 *)
(***************************************************************************)
GetOK(e, m) ==
  IF e.k \in DOMAIN m THEN Ok(e) /\ e.v = m[e.k] /\ e.n = BLen(m[e.k]) ELSE Err(e, ENOTFOUND) /\ e.n = 0
HasOK(e, m) ==
  IF e.k \in DOMAIN m THEN Ok(e) ELSE Err(e, ENOTFOUND)
ProofOK(e, m, t) ==
  Ok(e) /\ e.p = Encode(ProofIn(m, t, e.k))

Lookup(e) ==
  /\ isopen
  /\ \/ Faulty(e)
     \/ IF Known_(e.r)
        THEN CASE e.op = "get"   -> GetOK(e, At(e.r))
               [] e.op = "has"   -> HasOK(e, At(e.r))
               [] e.op = "prove" -> ProofOK(e, At(e.r), TreeOf(At(e.r)))
        ELSE Err(e, ENOTFOUND)
  /\ e.op # "has" => Nothing(e)
  /\ Quiet

TxLookup(e) ==
  /\ IsTx(e.t)
  /\ \/ Faulty(e)
     \/ LET m == txs[e.t] IN
        CASE e.op = "txget"   -> GetOK(e, m)
          [] e.op = "txhas"   -> HasOK(e, m)
          [] e.op = "txprove" -> ProofOK(e, m, TreeOf(m))
  /\ e.op # "txhas" => Nothing(e)
  /\ Quiet

\* Many lookups at once.
DumpOK(e, m) ==
  \* the quantifiers make TLC evaluate these once
  \E t \in {IF e.root # "" \/ e.proofs # << >> THEN TreeOf(m) ELSE [h |-> ""]} :
  \E keys \in {IF e.ic = 1 THEN Sorted(m) ELSE << >>} :
     /\ e.f = 0
     /\ e.root # "" => e.root = t.h
     /\ \A j \in 1..Len(e.gets) : GetOK(e.gets[j], m) \/ (Lost(e.gets[j]) /\ e.gets[j].n = 0)
     /\ \A j \in 1..Len(e.has) : HasOK(e.has[j], m) \/ Lost(e.has[j])
     /\ \A j \in 1..Len(e.proofs) :
          LET p == e.proofs[j] IN
          Lost(p) \/
          /\ ProofOK(p, m, t)
          /\ p.vret # -1 =>
               /\ p.vret = 1
               /\ IF p.k \in DOMAIN m THEN p.ex = 1 /\ p.v = m[p.k] /\ p.n = BLen(m[p.k])
                                      ELSE p.ex = 0 /\ p.n = 0
     /\ e.ic # -1 =>
          /\ e.ic = 1 \/ (Hurt /\ e.ic = 0)
          /\ e.ic = 1 =>
               /\ \A j \in 1..Len(e.iter) :
                    j <= Len(keys) /\ e.iter[j].k = keys[j] /\ e.iter[j].v = m[keys[j]] /\ e.iter[j].n = BLen(m[keys[j]])
               /\ \/ Len(e.iter) = Len(keys) /\ e.ierr = EITEREND /\ e.ierr2 = EITEREND
                  \/ Hurt /\ e.ierr = ECORRUPTION

\* Nothing is found at a root that no commit has.
NoneOK(e) ==
  /\ \A j \in 1..Len(e.gets) : (Err(e.gets[j], ENOTFOUND) \/ Lost(e.gets[j])) /\ e.gets[j].n = 0
  /\ \A j \in 1..Len(e.has) : Err(e.has[j], ENOTFOUND) \/ Lost(e.has[j])
  /\ \A j \in 1..Len(e.proofs) : Err(e.proofs[j], ENOTFOUND) \/ Lost(e.proofs[j])
  /\ e.ic # 1

Dump(e) ==
  /\ isopen
  \* (an expression, not an action: TLC would branch at every disjunction)
  /\ TRUE = CASE e.w = "db" -> DumpOK(e, head)
              [] e.w = "tx" -> IsTx(e.t) /\ DumpOK(e, txs[e.t])
              [] e.w = "at" -> IF Known(e.r) THEN DumpOK(e, MapAt(e.r)) ELSE NoneOK(e)
  /\ Quiet

(***************************************************************************)
(* The database                                                            *)
(***************************************************************************)
OpenE(e) ==
  /\ IF Ok(e)
     THEN Fits(dir.cur) /\ dir.hurt # "gone" /\ Open /\ dir' = [dir EXCEPT !.exists = "yes"]
     ELSE /\ e.err = EBADOPEN
          /\ e.f > 0 \/ dir.half \/ Hurt \/ ~Fits(dir.cur)
          /\ Same
          /\ dir' = [dir EXCEPT !.exists = IF @ = "yes" THEN "yes" ELSE "maybe"]
  /\ UNCHANGED lim

CloseE(e) == Close /\ UNCHANGED << dir, lim >>

DestroyE(e) ==
  /\ IF Ok(e)
     THEN /\ dir.exists # "no" /\ dir.foreign = {}
          /\ Destroy
          /\ dir' = [dir EXCEPT !.exists = "no", !.foreign = {}, !.half = FALSE, !.hurt = "no"]
     ELSE /\ e.err = EBADOPEN
          /\ \/ /\ dir.exists # "yes" /\ ~dir.half                 \* nothing there
                /\ Same /\ UNCHANGED dir
             \/ /\ dir.exists # "yes" /\ dir.half                  \* an earlier attempt finished
                /\ Destroy /\ dir' = [dir EXCEPT !.half = FALSE, !.exists = "no"]
             \/ /\ dir.exists = "yes" /\ dir.foreign # {} /\ e.f = 0 \* all but the foreign files
                /\ Destroy /\ dir' = [dir EXCEPT !.half = FALSE]
             \/ /\ e.f > 0
                /\ Same /\ dir' = [dir EXCEPT !.half = TRUE]
             \/ /\ isopen \/ ~Fits(dir.cur)
                /\ Same /\ UNCHANGED dir
  /\ UNCHANGED lim

RootE(e) ==
  /\ isopen
  /\ e.root = Root(head)
  /\ Quiet

RevertE(e) ==
  /\ isopen
  /\ IF Ok(e) THEN Revert(e.r)
     ELSE /\ Same
          /\ \/ ~Known(e.r) /\ Err(e, ENOTFOUND)
             \/ Faulty(e)
  /\ UNCHANGED << dir, lim >>

Pos(e) == << e.pos[1], e.pos[2] >>

\* A commit that failed, and whether its record may be on disk all the same.
Failed(e, m) ==
  \/ Lost(e) /\ Same
  \/ /\ e.f > 0
     /\ \/ Err(e, EBADWRITE) /\ CommitFails(m, \E x \in Range(e.fk) : x \notin {"write", "open"})
        \/ Err(e, ECORRUPTION) /\ Same       \* failed on the way to it

InsE(e) ==
  /\ isopen
  /\ IF VTooBig(e.v) THEN Err(e, EINVAL) /\ Same
     ELSE IF Ok(e) THEN DbInsertAt(e.k, e.v, Pos(e))
     ELSE Failed(e, Put(head, e.k, e.v))
  /\ UNCHANGED << dir, lim >>

RemE(e) ==
  /\ isopen
  /\ IF Ok(e) THEN DbRemoveAt(e.k, Pos(e))
     ELSE IF e.k \in DOMAIN head THEN Failed(e, Del(head, e.k))
     ELSE (Err(e, ENOTFOUND) \/ Faulty(e)) /\ Same
  /\ UNCHANGED << dir, lim >>

(***************************************************************************)
(* Transactions                                                            *)
(***************************************************************************)
TxE(e) ==
  /\ isopen
  /\ IF Ok(e) THEN (IF e.r = "" THEN TxCreate(e.t) ELSE TxCreateAt(e.t, e.r))
     ELSE /\ Same
          /\ \/ e.r # "" /\ ~Known(e.r) /\ Err(e, ENOTFOUND)
             \/ Faulty(e)
  /\ UNCHANGED << dir, lim >>

TxDelE(e) ==
  /\ IF e.t \in DOMAIN txs THEN TxDestroy(e.t) ELSE Same
  /\ UNCHANGED << dir, lim >>

TxClearE(e) == TxClear(e.t) /\ UNCHANGED << dir, lim >>

TxRootE(e) == IsTx(e.t) /\ e.root = Root(txs[e.t]) /\ Quiet

TxInjectE(e) ==
  /\ IsTx(e.t)
  /\ IF Ok(e) THEN TxInject(e.t, e.r)
     ELSE Same /\ ((~Known(e.r) /\ Err(e, ENOTFOUND)) \/ Faulty(e))
  /\ UNCHANGED << dir, lim >>

TxInsE(e) ==
  /\ IsTx(e.t)
  /\ IF VTooBig(e.v) THEN Err(e, EINVAL) /\ Same
     ELSE IF Ok(e) THEN TxInsert(e.t, e.k, e.v) ELSE Faulty(e) /\ Same
  /\ UNCHANGED << dir, lim >>

TxRemE(e) ==
  /\ IsTx(e.t)
  /\ IF Ok(e) THEN TxRemove(e.t, e.k)
     ELSE /\ Same
          /\ \/ e.k \notin DOMAIN txs[e.t] /\ Err(e, ENOTFOUND)
             \/ Faulty(e)
  /\ UNCHANGED << dir, lim >>

CommitE(e) ==
  /\ IsTx(e.t)
  /\ IF Ok(e) THEN TxCommitAt(e.t, Pos(e)) ELSE Failed(e, txs[e.t])
  /\ UNCHANGED << dir, lim >>

(***************************************************************************)
(* Iterators                                                               *)
(***************************************************************************)
TxIterE(e) ==
  /\ IsTx(e.t)
  /\ IF Ok(e) THEN IterCreate(e.i, txs[e.t]) ELSE Faulty(e) /\ Same
  /\ UNCHANGED << dir, lim >>

IterE(e) ==
  /\ isopen
  /\ IF Ok(e) THEN Known_(e.r) /\ IterCreate(e.i, At(e.r))
     ELSE Same /\ ((~Known_(e.r) /\ Err(e, ENOTFOUND)) \/ Faulty(e))
  /\ UNCHANGED << dir, lim >>

NextE(e) ==
  /\ e.i \in DOMAIN iters
  /\ LET x == iters[e.i] IN
     IF Ok(e) THEN /\ x.rest # << >> /\ e.k = Head(x.rest)
                   /\ e.ko = 0 => e.v = x.m[e.k] /\ e.n = BLen(x.m[e.k])
                   /\ IterNext(e.i)
     ELSE Same /\ ((x.rest = << >> /\ Err(e, EITEREND)) \/ Faulty(e))
  /\ UNCHANGED << dir, lim >>

IdelE(e) == IterDestroy(e.i) /\ UNCHANGED << dir, lim >>

(***************************************************************************)
(* Verification and hashing                                                *)
(***************************************************************************)
VerifyE(e) ==
  /\ LET r == Verify(e.p, e.k, e.r) IN
     IF r.err = 0 THEN Ok(e) /\ e.ex = r.exists /\ e.v = r.value /\ e.n = BLen(r.value)
     ELSE Err(e, r.err) /\ e.ex = 0 /\ e.n = 0
  /\ Quiet

HashE(e) == e.h = H(e.x) /\ Quiet
HashLongE(e) == e.h = HLong(e.hi, e.lo) /\ Quiet

(***************************************************************************)
(* The process and the machine                                             *)
(***************************************************************************)
InProgress(e) ==
  CASE e.in = "commit" -> {txs[e.t]}
    [] e.in = "ins" -> IF VTooBig(e.v) THEN {} ELSE {Put(head, e.k, e.v)}
    [] e.in = "rem" -> IF e.k \in DOMAIN head THEN {Del(head, e.k)} ELSE {}
    [] OTHER -> {}

CrashE(e) ==
  /\ Crash(InProgress(e))
  /\ dir' = CASE e.in = "destroy" -> [dir EXCEPT !.half = TRUE, !.exists = "maybe"]
              [] e.in = "open" /\ dir.exists = "no" -> [dir EXCEPT !.exists = "maybe"]
              [] OTHER -> dir
  /\ UNCHANGED lim

\* Only intact[f] bytes of file f are as they were (of before[f]).
Intact(e, c) ==
  /\ c.pos[1] <= Len(e.intact)
  /\ c.pos[2] <= e.intact[c.pos[1]]
  /\ \A f \in 1..(c.pos[1] - 1) : e.intact[f] = e.before[f]

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

CutE(e) ==
  /\ ~isopen
  /\ LET sure == {n \in 1..Len(log) : log[n].pos # NoPos /\ Intact(e, log[n])}
         low  == IF sure = {} THEN 0 ELSE MaxOf(sure)
     IN \E n \in low..Len(log) :
          /\ \A j \in (low + 1)..n : log[j].pos = NoPos
          /\ Lose(n)
  /\ UNCHANGED << dir, lim >>

\* All but the first n bytes of file f (-1: all) are moved away, for a while.
\* The newest commit's record is in a later file; file 0 is the key.
HurtE(e) ==
  /\ ~isopen /\ e.f < Last(log).pos[1]
  /\ dir' = [dir EXCEPT !.hurt = IF @ = "gone" \/ e.n = -1 \/ e.f = 0 THEN "gone" ELSE "cut"]
  /\ Same /\ UNCHANGED lim

\* They are put back: nobody has touched what was left.
HealE(e) ==
  /\ ~isopen
  /\ e.same = 1
  /\ dir' = [dir EXCEPT !.hurt = "no"]
  /\ Same /\ UNCHANGED lim

\* A build that syncs on commit: the record of every successful commit is safe.
\* (One that had not returned when the process died may have been seen since
\* and still go.)
SyncCutE(e) ==
  /\ CutE(e)
  /\ \A j \in (Len(log') + 1)..Len(log) : log[j].pos = NoPos

(***************************************************************************)
(* The directory                                                           *)
(***************************************************************************)
TouchE(e) ==
  /\ dir' = [dir EXCEPT !.foreign = @ \union {e.name}]
  /\ Same /\ UNCHANGED lim
UntouchE(e) ==
  /\ dir' = [dir EXCEPT !.foreign = @ \ {e.name}]
  /\ Same /\ UNCHANGED lim
MkdbE(e) ==
  /\ dir' = [dir EXCEPT !.exists = "yes"]
  /\ Same /\ UNCHANGED lim
\* From now on calls use this spelling of this path.
PathE(e) ==
  /\ ~isopen /\ UNCHANGED << isopen, head, txs, iters, lim >>
  /\ \E n \in {Norm(e.cwd, e.path)} :
       /\ n = e.dir
       /\ \E sh \in {[x \in DOMAIN dir.shelf \union {dir.cur} |->
                      IF x = dir.cur THEN [log |-> log, limbo |-> limbo, pend |-> pend, dir |-> [dir EXCEPT !.shelf = NoShelf]]
                      ELSE dir.shelf[x]]} :
            IF n \in DOMAIN sh
            THEN /\ log' = sh[n].log /\ limbo' = sh[n].limbo /\ pend' = sh[n].pend
                 /\ dir' = [sh[n].dir EXCEPT !.shelf = sh]
            ELSE /\ log' = << >> /\ limbo' = {} /\ pend' = {}
                 /\ dir' = [exists |-> IF e.exists = 1 THEN "yes" ELSE "no", foreign |-> Range(e.names), half |-> FALSE, hurt |-> "no",
                            cur |-> n, shelf |-> sh]

\* What was asked of the system for this spelling, by a call that was not
\* allowed to change anything.
ProbeE(e) ==
  /\ \E n \in {Norm(e.cwd, e.path)} :
       IF Fits(n) THEN e.got # "" /\ Norm(e.cwd, e.got) = n ELSE e.got = "" /\ Err(e, EBADOPEN)
  /\ Quiet

LimitsE(e) ==
  /\ lim' = [mfs |-> e.mfs, mof |-> e.mof]
  /\ Same /\ UNCHANGED dir

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DataFile(x) == Len(x) = 10 /\ \A j \in 1..10 : SubSeq(x, j, j) \in Digit

StatE(e) ==
  /\ (~isopen /\ txs = NoFun /\ iters = NoFun) => e.heap = 0 /\ e.fds = 0 /\ e.maps = 0
  /\ dir.exists = "no" => e.exists = 0
  /\ dir.exists = "yes" => e.exists = 1
  /\ dir.foreign \subseteq Range(e.names)
  /\ ~dir.half => \A x \in Range(e.names) : DataFile(x) \/ x \in {"meta", "lock"} \union dir.foreign
  /\ \A j \in 1..Len(e.sizes) : (e.sizes[j] < 0 => dir.half \/ Hurt) = TRUE /\ e.sizes[j] <= lim.mfs
  /\ e.when = "commit" => e.maps <= lim.mof + 1 /\ e.fds <= lim.mof + 2
  /\ (e.when = "gone") => \A x \in Range(e.names) : x \in dir.foreign
  /\ Quiet

GrownE(e) == (\A j \in 1..Len(e.files) : e.files[j].diff = -1) /\ Quiet

\* The files hold exactly the commits.
ImageE(e) ==
  /\ \E l \in {ReadLog(e.img)} :
       /\ Len(l) = Len(log)
       /\ \A j \in 1..Len(l) : l[j].ok /\ l[j].m = log[j].m
  /\ Quiet

\* Somebody put these files there.
LoadE(e) ==
  /\ ~isopen /\ log = << >>
  /\ \E l \in {ReadLog(e.img)} :
       /\ \A j \in 1..Len(l) : l[j].ok
       /\ log' = [j \in 1..Len(l) |-> [m |-> l[j].m, r |-> l[j].h, pos |-> NoPos, f |-> {}]]
  /\ dir' = [dir EXCEPT !.exists = "yes"]
  /\ UNCHANGED << limbo, pend, isopen, head, txs, iters, lim >>

NewE(e) ==
  /\ log' = << >> /\ limbo' = {} /\ pend' = {} /\ isopen' = FALSE /\ head' = Empty
  /\ txs' = NoFun /\ iters' = NoFun
  /\ dir' = NoDir /\ lim' = NoLim

(***************************************************************************)
(* The behaviour                                                           *)
(***************************************************************************)
Step(e) ==
  CASE e.op = "new"      -> NewE(e)
    [] e.op = "open"     -> OpenE(e)
    [] e.op = "close"    -> CloseE(e)
    [] e.op = "destroy"  -> DestroyE(e)
    [] e.op = "root"     -> RootE(e)
    [] e.op = "revert"   -> RevertE(e)
    [] e.op \in {"get", "has", "prove"} -> Lookup(e)
    [] e.op = "ins"      -> InsE(e)
    [] e.op = "rem"      -> RemE(e)
    [] e.op = "tx"       -> TxE(e)
    [] e.op = "txdel"    -> TxDelE(e)
    [] e.op = "txclear"  -> TxClearE(e)
    [] e.op = "txroot"   -> TxRootE(e)
    [] e.op = "txinject" -> TxInjectE(e)
    [] e.op \in {"txget", "txhas", "txprove"} -> TxLookup(e)
    [] e.op = "txins"    -> TxInsE(e)
    [] e.op = "txrem"    -> TxRemE(e)
    [] e.op = "commit"   -> CommitE(e)
    [] e.op = "txiter"   -> TxIterE(e)
    [] e.op = "iter"     -> IterE(e)
    [] e.op = "next"     -> NextE(e)
    [] e.op = "idel"     -> IdelE(e)
    [] e.op = "dump"     -> Dump(e)
    [] e.op = "verify"   -> VerifyE(e)
    [] e.op = "hash"     -> HashE(e)
    [] e.op = "hashlong" -> HashLongE(e)
    [] e.op = "crash"    -> CrashE(e)
    [] e.op = "cut"      -> CutE(e)
    [] e.op = "synccut"  -> SyncCutE(e)
    [] e.op = "touch"    -> TouchE(e)
    [] e.op = "untouch"  -> UntouchE(e)
    [] e.op = "mkdb"     -> MkdbE(e)
    [] e.op = "limits"   -> LimitsE(e)
    [] e.op = "path"     -> PathE(e)
    [] e.op = "probe"    -> ProbeE(e)
    [] e.op = "stat"     -> StatE(e)
    [] e.op = "snap"     -> Quiet
    [] e.op = "grown"    -> GrownE(e)
    [] e.op = "image"    -> ImageE(e)
    [] e.op = "load"     -> LoadE(e)
    [] e.op = "hurt"     -> HurtE(e)
    [] e.op = "heal"     -> HealE(e)
    [] e.op = "nocut"    -> Quiet
    [] OTHER             -> FALSE       \* in particular "died"

Init == Fresh /\ i = 1 /\ dir = NoDir /\ lim = NoLim

Next == i <= Len(Events) /\ Step(Events[i]) /\ i' = i + 1

\* How far any behaviour got.
Reach == TLCSet(1, IF TLCGet("level") = 1 THEN 1 ELSE IF TLCGet(1) < i THEN i ELSE TLCGet(1))

Accepted ==
  IF TLCGet(1) = Len(Events) + 1 THEN PrintT(<< "ACCEPTED", Len(Events) >>)
  ELSE PrintT(<< "REJECTED", TLCGet(1) >>)
=============================================================================
