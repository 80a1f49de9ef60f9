------------------------------- MODULE Patches -------------------------------
(* What a print of the installed files and a patch change about the files a     *)
(* standard delta relies on.                                                    *)
(*                                                                              *)
(* A patch replaces some of a package's files and lists others it would have    *)
(* left as they were ("unpatched"). On a system that has the patch, those may   *)
(* be the patched ones of an earlier patch or the packaged ones; the print      *)
(* tells what is really there. A file is relied upon if it is not listed as     *)
(* unpatched, or if the print says its contents are the packaged ones.          *)
(*                                                                              *)
(* A list is a sequence of [name, unpatched, sum]; of several entries with one  *)
(* name the first counts.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, MaxList

At(list, name) == IF \E k \in DOMAIN list : list[k].name = name
                  THEN CHOOSE k \in DOMAIN list : list[k].name = name /\ \A j \in 1..k-1 : list[j].name # name
                  ELSE 0
Listed(patch, name) == LET k == At(patch, name) IN k # 0 /\ patch[k].unpatched
Same(print, name, sum) == LET k == At(print, name) IN k # 0 /\ print[k].sum = sum
\* left out of what the delta relies on
LeftOut(print, patch, name, sum) == Listed(patch, name) /\ ~Same(print, name, sum)

\* what making answers, before anything else about the packages is looked at
Answer(print, patch, src) ==
  IF print.state = "missing" THEN "IO" ELSE IF print.state = "bad" THEN "FORMAT"
  ELSE IF patch.state = "missing" THEN "IO" ELSE IF patch.state = "bad" THEN "FORMAT"
  ELSE IF print.nevr # src \/ patch.nevr # src THEN "ARGS" ELSE "OK"

---------------------------------------------------------------------------
(* a system with a package of Names, patched and then not: what is on disk ("p" *)
(* as packaged, "q" patched) is what the print says, patched files are not      *)
(* listed as unpatched by the patch that has them                               *)
VARIABLES disk, print, patch, cls
vars == <<disk, print, patch, cls>>
Entry == [name : Names, unpatched : BOOLEAN, sum : {"p", "q", "none"}]
Lists == UNION {[1..n -> Entry] : n \in 0..MaxList}
Truthful(pr) == \A n \in Names : LET k == At(pr, n) IN k # 0 => pr[k].sum \in {disk[n], "none"}
\* every file that is not as packaged was patched, and the latest patch lists it as unpatched if it is not its own
Covers(pa) == \A n \in Names : disk[n] = "q" => Listed(pa, n)
\* one entry's situation, for building lists
Places == {"absent", "unpatched", "file", "unpatched+file", "file+unpatched"}
Sums == {"absent", "same", "other", "none", "listed first", "twice"}
Kinds == {"reg", "empty", "sym", "dir", "hard", "config"}
Classes == [inpatch : Places, inprint : Sums, kind : Kinds, rpm : BOOLEAN]
ClassOK(c) == (c.inpatch = "file+unpatched" => c.rpm = FALSE) /\ (c.rpm => c.inpatch \in {"absent", "unpatched", "file"})
Init == \/ /\ MaxList > 0 /\ disk \in [Names -> {"p", "q"}] /\ print \in Lists /\ patch \in Lists /\ cls = "none"
        \/ /\ MaxList = 0 /\ disk = 0 /\ print = 0 /\ patch = 0 /\ cls \in {c \in Classes : ClassOK(c)}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* nothing that is not as packaged is relied upon; as little as possible is left out
Safe == (MaxList > 0 /\ Truthful(print) /\ Covers(patch)) => \A n \in Names : disk[n] = "q" => LeftOut(print, patch, n, "p")
Sparing == (MaxList > 0 /\ Truthful(print)) => \A n \in Names : LeftOut(print, patch, n, "p") => (Listed(patch, n) /\ (disk[n] = "q" \/ At(print, n) = 0 \/ print[At(print, n)].sum = "none"))
EmitClass == MaxList = 0 => PrintT(ToJson(cls))
=============================================================================
