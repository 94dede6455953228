------------------------------ MODULE PathTest ------------------------------
(***************************************************************************)
(* Laws of normalization, over all short texts.                            *)
(***************************************************************************)
EXTENDS Path, TLC

CONSTANT N
Alphabet == {"a", ".", "/"}

VARIABLE p
Init == p = ""
Next == Len(p) < N /\ \E c \in Alphabet : p' = p \o c

Cwd == "/w/v"
Ends(x, e) == Len(x) >= Len(e) /\ SubSeq(x, Len(x) - Len(e) + 1, Len(x)) = e
Has(x, e) == \E i \in 1..(Len(x) - Len(e) + 1) : SubSeq(x, i, i + Len(e) - 1) = e

Clean(n) ==
  /\ SubSeq(n, 1, 1) = "/"
  /\ ~Has(n, "//") /\ ~Has(n, "/./") /\ ~Has(n, "/../")
  /\ ~Ends(n, "/.") /\ ~Ends(n, "/..")
  /\ n = "/" \/ ~Ends(n, "/")

Laws ==
  LET n == Norm(Cwd, p) IN
  /\ Clean(n)
  /\ Norm("/other", n) = n                          \* idempotent, absolute
  /\ Norm(Cwd, p \o "/") = n \/ p = ""              \* a slash at the end
  /\ p # "" => Norm(Cwd, p \o "/.") = n             \* this folder
  /\ p # "" => Norm(Cwd, p \o "/a/..") = n          \* down and up again
  /\ Norm(Cwd, "./" \o p) = (IF p # "" /\ SubSeq(p, 1, 1) = "/" THEN Norm(Cwd, "." \o p) ELSE n)
  /\ Norm("/", "/" \o p) = Norm("/", p)             \* the root is its own parent
=============================================================================
