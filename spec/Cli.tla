--------------------------------- MODULE Cli ----------------------------------
(***************************************************************************)
(* The command-line tool: what a command line means, and what it prints.   *)
(* A command opens the database, does one thing and closes it; these are   *)
(* the steps of Trace with the results that the status and the output      *)
(* stand for.                                                              *)
(***************************************************************************)
EXTENDS Trace

VARIABLE ph           \* how far the command has come: "", "open", "do", "close"

cvars == << tvars, ph >>

CInit == Init /\ ph = ""

(***************************************************************************)
(* Command lines                                                           *)
(***************************************************************************)
HexDigit == Digit \union {"a", "b", "c", "d", "e", "f"}
\* a is in small letters
IsHex(a) == Len(a) % 2 = 0 /\ \A j \in 1..Len(a) : SubSeq(a, j, j) \in HexDigit
IsHash(a) == Len(a) = 64 /\ IsHex(a)

MaxArgs == 32
MaxArgValue == 1024

NoOpt == [bad |-> FALSE, help |-> FALSE, set |-> FALSE, path |-> "", root |-> "", hash |-> FALSE, args |-> << >>]

\* argv[k] onwards; al is the same in small letters.
RECURSIVE Options(_, _, _)
Options(e, k, o) ==
  LET n == Len(e.argv)
      Wrong == [o EXCEPT !.bad = TRUE]
  IN
  IF k > n THEN o
  ELSE CASE e.argv[k] \in {"-p", "--path"} -> IF k = n THEN Wrong ELSE Options(e, k + 2, [o EXCEPT !.set = TRUE, !.path = e.argv[k + 1]])
         [] e.argv[k] \in {"-r", "--root"} -> IF k = n \/ ~IsHash(e.al[k + 1]) THEN Wrong ELSE Options(e, k + 2, [o EXCEPT !.root = e.al[k + 1]])
         [] e.argv[k] \in {"-H", "--hash"} -> Options(e, k + 1, [o EXCEPT !.hash = TRUE])
         [] e.argv[k] \in {"-h", "--help"} -> [o EXCEPT !.help = TRUE]
         [] OTHER -> IF (e.argv[k] # "" /\ SubSeq(e.argv[k], 1, 1) = "-") \/ Len(o.args) = MaxArgs THEN Wrong
                     ELSE Options(e, k + 1, [o EXCEPT !.args = Append(@, k)])

Actions == {"create", "destroy", "info", "root", "get", "insert", "remove", "list", "prove", "verify"}
Keyed == {"get", "insert", "remove", "prove", "verify"}

\* The command: its action, or why there is none.
Command(e) ==
  LET o == Options(e, 1, NoOpt)
      Arg(j) == e.al[o.args[j]]
      Refused == [act |-> "refused"]
      a == e.argv[o.args[1]]
      k == IF o.hash THEN H(e.ax[o.args[2]]) ELSE Arg(2)
      path == IF o.set THEN o.path ELSE IF e.set = 1 THEN e.env ELSE "."
  IN
  IF o.bad THEN Refused
  ELSE IF o.help THEN [act |-> "help"]
  ELSE IF o.args = << >> THEN [act |-> "usage"]
  ELSE IF a \notin Actions THEN Refused
  ELSE IF a \notin Keyed THEN [act |-> a, path |-> path, r |-> o.root, k |-> "", x |-> ""]
  ELSE IF Len(o.args) < 2 \/ (~o.hash /\ ~IsHash(Arg(2))) THEN Refused
  ELSE IF a \notin {"insert", "verify"} THEN [act |-> a, path |-> path, r |-> o.root, k |-> k, x |-> ""]
  ELSE IF Len(o.args) < 3 \/ ~IsHex(Arg(3)) THEN Refused
  ELSE IF a = "insert" /\ BLen(Arg(3)) > MaxArgValue THEN Refused
  ELSE IF a = "verify" /\ o.root = "" THEN Refused
  ELSE [act |-> a, path |-> path, r |-> o.root, k |-> k, x |-> Arg(3)]

(***************************************************************************)
(* Results                                                                 *)
(***************************************************************************)
Done_(e)   == e.status = 0
Failed_(e) == e.status \in 1..98
Ret(e)     == IF e.status = 0 THEN 1 ELSE 0
NoOut(e)   == e.out = << >>
Prints(e, s) == e.out = s /\ e.nl = 1

\* Results of the library calls that a command makes, as Trace has them.
Call(e, op, c) ==
  [op |-> op, ret |-> Ret(e), f |-> e.f, s |-> e.s, fk |-> e.fk, err |-> 0, pos |-> << 0, 0 >>,
   k |-> c.k, r |-> c.r, v |-> "", n |-> 0, p |-> ""]
Errors == {ENOTFOUND, ECORRUPTION, EINVAL, EBADWRITE, EBADOPEN}
WithErr(x, op(_)) == IF x.ret = 1 THEN op(x) ELSE \E n \in Errors : op([x EXCEPT !.err = n])

RECURSIVE Bytes(_, _)
Bytes(m, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN 32 + BLen(m[k]) + Bytes(m, S \ {k})

IsPrefix_(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))

\* The one thing that a command does with the open database.
Does(e, c) ==
  CASE c.act = "create" -> Done_(e) /\ NoOut(e) /\ Quiet
    [] c.act = "root" -> Done_(e) /\ Prints(e, << Root(head) >>) /\ Quiet
    [] c.act \in {"get", "prove"} ->
         /\ Done_(e) => Len(e.out) = 1 /\ e.nl = 1
         /\ Failed_(e) => NoOut(e)
         /\ LET x == Call(e, c.act, c) IN
            WithErr(IF Done_(e) THEN [x EXCEPT !.v = e.out[1], !.n = BLen(e.out[1]), !.p = e.out[1]] ELSE x, Lookup)
    [] c.act = "insert" -> NoOut(e) /\ WithErr([Call(e, "ins", c) EXCEPT !.v = c.x], InsE)
    [] c.act = "remove" -> NoOut(e) /\ WithErr(Call(e, "rem", c), RemE)
    [] c.act \in {"info", "list"} ->
         /\ Quiet
         /\ IF ~Known_(c.r) THEN Failed_(e) /\ NoOut(e)
            ELSE \E m \in {At(c.r)} : \E ks \in {IF c.act = "list" THEN Sorted(m) ELSE << >>} :
                 \/ /\ Done_(e)
                    /\ IF c.act = "list" THEN Prints(e, ks)
                       ELSE Prints(e, << "Items: " \o ToString(Cardinality(DOMAIN m)), "Size:  " \o ToString(Bytes(m, DOMAIN m)),
                                         "Root:  " \o Root(head) >>)
                 \/ Failed_(e) /\ e.f > 0 /\ IsPrefix_(e.out, ks)

\* One command that opens no database.
Plain(e, c) ==
  /\ e.touched = 0
  /\ CASE c.act = "refused" -> Failed_(e) /\ NoOut(e)
       [] c.act = "usage"   -> Failed_(e) /\ ~NoOut(e)
       [] c.act = "help"    -> Done_(e) /\ ~NoOut(e)
       [] c.act = "verify"  ->
            \E r \in {Verify(c.x, c.k, c.r)} :
              IF r.err = 0 THEN Done_(e) /\ Prints(e, IF r.exists = 1 THEN << r.value >> ELSE << >>)
              ELSE Failed_(e) /\ NoOut(e)
  /\ Quiet /\ UNCHANGED ph /\ i' = i + 1

\* The database it means.
Aims(e, c) ==
  IF ~Fits(Norm(e.cwd, c.path))
  THEN Failed_(e) /\ NoOut(e) /\ e.touched = 0 /\ Quiet /\ i' = i + 1 /\ UNCHANGED ph
  ELSE IF isopen        \* somebody else has it
  THEN /\ Norm(e.cwd, c.path) = dir.cur /\ dir.cur = e.dir
       /\ Failed_(e) /\ NoOut(e) /\ Quiet /\ i' = i + 1 /\ UNCHANGED ph
  ELSE PathE([cwd |-> e.cwd, path |-> c.path, dir |-> e.dir, exists |-> e.exists, names |-> e.names]) /\ ph' = "open" /\ UNCHANGED i

Opens(e, c) ==
  \/ /\ c.act = "destroy" /\ NoOut(e)
     /\ DestroyE([Call(e, "destroy", c) EXCEPT !.err = EBADOPEN])
     /\ ph' = "" /\ i' = i + 1
  \/ /\ c.act # "destroy" /\ Failed_(e) /\ NoOut(e)
     /\ OpenE([Call(e, "open", c) EXCEPT !.err = EBADOPEN])
     /\ ph' = "" /\ i' = i + 1
  \/ /\ c.act # "destroy"
     /\ OpenE([Call(e, "open", c) EXCEPT !.ret = 1])
     /\ ph' = "do" /\ UNCHANGED i
  \* a value that is too long need not be looked at with the database open
  \/ /\ c.act = "insert" /\ VTooBig(c.x) /\ Failed_(e) /\ NoOut(e)
     /\ e.touched = 0 /\ Quiet
     /\ ph' = "" /\ i' = i + 1

CliE(e) ==
  \E c \in {Command(e)} :
    /\ e.status \in 0..98
    /\ CASE ph = "" /\ c.act \in {"refused", "usage", "help", "verify"} -> Plain(e, c)
         [] ph = "" /\ c.act \notin {"refused", "usage", "help", "verify"} -> Aims(e, c)
         [] ph = "open" -> Opens(e, c)
         [] ph = "do" -> Does(e, c) /\ ph' = "close" /\ UNCHANGED i
         [] ph = "close" -> Close /\ UNCHANGED << dir, lim >> /\ ph' = "" /\ i' = i + 1

CNext ==
  /\ i <= Len(Events)
  /\ IF Events[i].op = "cli" THEN CliE(Events[i])
     ELSE ph = "" /\ Step(Events[i]) /\ i' = i + 1 /\ UNCHANGED ph
=============================================================================
