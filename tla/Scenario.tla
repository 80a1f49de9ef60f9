------------------------------ MODULE Scenario ------------------------------
(* What an old and a new package can look like, as classes. Each slot is one   *)
(* file (or pair of hard links) present in the old package, the new one or     *)
(* both; the package level says how archives are ordered and encoded.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots,      \* number of free slots
          Pick        \* "slot": every single slot class; "mix": random walks over full packages

Kinds   == {"empty", "tiny", "small", "block", "large", "hard", "sym", "dir", "chr", "fifo"}
Regular == {"empty", "tiny", "small", "block", "large", "hard"}
Changes == {"same", "edit", "insert", "delete", "append", "truncate", "rewrite", "remove", "add", "rename", "retype", "dup"}
Attrs   == {"plain", "config", "ghost", "missingok", "nomd5", "nosize", "color", "colorlib", "hdrsize", "nopayload", "noheader"}

Slot == [kind : Kinds, change : Changes, attr : Attrs]
\* contents can only be edited where there are contents; attributes other than
\* "plain" and absence from archive or header concern regular files only
MeaningfulSlot(s) ==
  /\ s.change \in {"edit", "insert", "delete", "truncate"} => s.kind \in Regular \ {"empty"}
  /\ s.change \in {"append", "rewrite", "dup"} => s.kind \in Regular
  /\ s.attr \notin {"plain", "nopayload", "noheader"} => s.kind \in Regular
  /\ s.kind = "hard" => s.attr = "plain"
SlotClasses == {s \in Slot : MeaningfulSlot(s)}

Orders  == {"same", "reversed", "shuffled"}
Encs    == {"gzip", "bzip2", "xz", "lzma", "zstd", "none"}
Level   == [order : Orders, neworder : Orders, oldenc : Encs \cup {"lzip"}, newenc : Encs, algo : {1, 8}, colors : BOOLEAN,
            epoch : {"none", "zero", "same", "new"}, names : {"dirs", "flat"}]

Types == {[type |-> "standard", version |-> v] : v \in 1..3} \cup {[type |-> "rpmonly", version |-> 3]}

VARIABLES sl, lv
vars == <<sl, lv>>
DefaultLevel == [order |-> "shuffled", neworder |-> "same", oldenc |-> "gzip", newenc |-> "gzip", algo |-> 8, colors |-> TRUE, epoch |-> "none", names |-> "dirs"]
Init == sl = <<>> /\ lv \in (IF Pick = "slot" THEN {DefaultLevel} ELSE {l \in Level : TRUE})
Add == Len(sl) < Slots /\ \E s \in SlotClasses : sl' = Append(sl, s) /\ UNCHANGED lv
Next == Add
Spec == Init /\ [][Next]_vars
Emit == IF Pick = "slot" THEN Len(sl) = 0 \/ PrintT(ToJson([s |-> sl, l |-> lv])) ELSE TRUE
TypeOK == \A i \in DOMAIN sl : sl[i] \in SlotClasses
=============================================================================
