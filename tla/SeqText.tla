------------------------------ MODULE SeqText ------------------------------
(* The textual form of a sequence ID, "name-version-release-hexdigits", as     *)
(* classes of strings and the verdict a check against a package file must give.*)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE c
Nevr   == {"right", "wrongversion", "wrongname", "prefix", "empty"}
HexLen == {"none", "short", "one_less", "right", "one_more", "two_more"}   \* relative to the right number of digits
Bad    == {"no", "first", "mid", "last"}
Case   == {"lower", "upper"}
Digest == {"right", "wrong"}
\* files written by the library end in a newline, which callers pass on
Cases == [nl : BOOLEAN, nevr : Nevr, dash : BOOLEAN, len : HexLen, bad : Bad, case : Case, digest : Digest]

Odd(x) == x.len \in {"one_less", "one_more"}
Verdict(x) ==
  IF ~x.dash \/ x.nevr = "empty" THEN "FORMAT"
  ELSE IF x.len \in {"none", "short"} \/ x.bad # "no" \/ Odd(x) THEN "FORMAT"
  ELSE IF x.nevr # "right" THEN "MISMATCH"
  ELSE IF x.len = "two_more" THEN "FORMAT"     \* one more run than the package has files
  ELSE IF x.digest = "wrong" THEN "MISMATCH"
  ELSE "OK"
\* a string without digits cannot hold a bad digit, one without dash is only digits
Meaningful(x) == /\ (x.len = "none" => x.bad = "no" /\ x.case = "lower" /\ x.digest = "right")
                 /\ (~x.dash => x.nevr = "empty")
Init == c \in {x \in Cases : Meaningful(x)}
Next == UNCHANGED c
OnlyExact == Verdict(c) = "OK" => c.nevr = "right" /\ c.len = "right" /\ c.bad = "no" /\ c.digest = "right"
Emit == PrintT(ToJson([c |-> c, v |-> Verdict(c)]))
=============================================================================
