----------------------------- MODULE BlocksWalk -----------------------------
(* Plans to be replayed: copies of units (PerBlock of them to a block) out of a *)
(* source of NUnits units, with the relations between consecutive copies that   *)
(* matter to a reader of blocks.                                                *)
EXTENDS Integers, TLC, Json
CONSTANTS NUnits, PerBlock
VARIABLE last       \* [at, len, how]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
One(S) == {RandomElement(IF last = last THEN S ELSE S)}
Init == last = [at |-> 0, len |-> 0, how |-> "start"]
Set(a, n, how) == last' = [at |-> Max(0, Min(a, NUnits - 1)), len |-> Max(1, Min(n, NUnits - Max(0, Min(a, NUnits - 1)))), how |-> how]
BlockOf(u) == u \div PerBlock
Lens == {1, 1, 2, PerBlock - 1, PerBlock, PerBlock + 1, 2 * PerBlock, 3 * PerBlock + 1}
Walk ==
  \E k \in One(1..10), n \in One(Lens), u \in One(0..NUnits-1) :
     CASE k = 1 -> Set(last.at + last.len, n, "on")
       [] k = 2 -> Set(last.at, last.len, "again")
       [] k = 3 -> Set(last.at - n, n, "before")
       [] k = 4 -> Set(PerBlock * BlockOf(u), PerBlock, "whole block")
       [] k = 5 -> Set(PerBlock * (BlockOf(last.at) - 1), PerBlock, "previous block")
       [] k = 6 -> Set(PerBlock * (BlockOf(last.at + last.len) + 1), 1, "next block")
       [] k = 7 -> Set(NUnits - n, n, "end")
       [] k = 8 -> Set(0, n, "beginning")
       [] k = 9 -> Set(PerBlock * BlockOf(u) + PerBlock - 1, 2, "over a boundary")
       [] OTHER -> Set(u, n, "anywhere")
Next == \E i \in 1..4 : Walk
Spec == Init /\ [][Next]_last
Within == last.len = 0 \/ (last.at >= 0 /\ last.at + last.len <= NUnits)
Emit == PrintT(ToJson([n |-> TLCGet("level"), op |-> last]))
=============================================================================
