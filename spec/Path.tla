-------------------------------- MODULE Path --------------------------------
(***************************************************************************)
(* What a path names: lexical normalization, as text.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences

\* The segments of a path, empty ones included.
Split(p) ==
  LET n == Len(p)
      RECURSIVE S(_, _)
      \* i: start of the current segment, j: next character
      S(i, j) == IF j > n THEN << SubSeq(p, i, n) >>
                 ELSE IF SubSeq(p, j, j) = "/" THEN << SubSeq(p, i, j - 1) >> \o S(j + 1, j + 1)
                 ELSE S(i, j + 1)
  IN  S(1, 1)

\* Segments that remain: "." goes, ".." takes the one before it along, and the
\* root is its own parent.
RECURSIVE Fold(_, _, _)
Fold(s, k, acc) ==
  IF k > Len(s) THEN acc
  ELSE IF s[k] \in {"", "."} THEN Fold(s, k + 1, acc)
  ELSE IF s[k] = ".." THEN Fold(s, k + 1, IF acc = << >> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1))
  ELSE Fold(s, k + 1, Append(acc, s[k]))

RECURSIVE Join(_)
Join(s) == IF s = << >> THEN "" ELSE "/" \o Head(s) \o Join(Tail(s))

\* The normalized absolute path of p for a process in the folder cwd.
Norm(cwd, p) ==
  LET full == IF p # "" /\ SubSeq(p, 1, 1) = "/" THEN p ELSE cwd \o "/" \o p
      s == Fold(Split(full), 1, << >>)
  IN  IF s = << >> THEN "/" ELSE Join(s)

\* "/" and ten more characters must fit behind the path.
MaxPrefix == 1013
Fits(n) == Len(n) <= MaxPrefix
=============================================================================
