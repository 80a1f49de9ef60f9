------------------------------- MODULE Copies -------------------------------
(* The instructions of a delta. The target is cut into segments: pieces of the  *)
(* source (possibly with byte differences when there is an add block) and new   *)
(* bytes. They are written as two lists: external copies (distance from the     *)
(* end of the previous one, length) and internal copies (number of external     *)
(* copies that come first, length of new data). A machine executes them.        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Byte,        \* the alphabet, 0..Byte-1
          MaxSrc, MaxTgt,
          Most         \* the biggest number an instruction can hold (2^31-1 in the files)

---------------------------------------------------------------------------
(* executing. s: [src, int, add (-1 per byte when there is no add block), out,  *)
(* so: place in the source, io: in the internal data, ao: in the add block, bad]*)
MachineInit == [so |-> 0, io |-> 0, ao |-> 0, ei |-> 0, len |-> 0, bad |-> FALSE, plan |-> <<>>]
\* the plan is what is taken from where: <<"ext", offset, length, place in the add block>> or <<"int", offset, length>>
Ext(s, c, srclen) ==
  LET off == s.so + c[1]
  IN IF off < 0 \/ c[2] < 0 \/ off + c[2] > srclen THEN [s EXCEPT !.bad = TRUE]
     ELSE [s EXCEPT !.so = off + c[2], !.ao = @ + c[2], !.ei = @ + 1, !.len = @ + c[2], !.plan = Append(@, <<0, off, c[2], s.ao>>)]
Own(s, n, intlen) ==
  IF n < 0 \/ s.io + n > intlen THEN [s EXCEPT !.bad = TRUE]
  ELSE [s EXCEPT !.io = @ + n, !.len = @ + n, !.plan = IF n = 0 THEN @ ELSE Append(@, <<1, s.io, n, 0>>)]
Exec(ints, exts, srclen, intlen) ==
  FoldLeft(LAMBDA s, c : IF s.bad \/ c[1] < 0 \/ s.ei + c[1] > Len(exts) THEN [s EXCEPT !.bad = TRUE]
                         ELSE LET t == FoldLeft(LAMBDA a, x : IF a.bad THEN a ELSE Ext(a, x, srclen), s, SubSeq(exts, s.ei + 1, s.ei + c[1]))
                              IN IF t.bad THEN t ELSE Own(t, c[2], intlen),
           MachineInit, ints)
\* everything in range and used up
Complete(s, ints, exts, intlen) == ~s.bad /\ s.ei = Len(exts) /\ s.io = intlen
\* the bytes a plan gives
Bytes(plan, src, int, add) ==
  FoldLeft(LAMBDA o, p : o \o (IF p[1] = 1 THEN SubSeq(int, p[2] + 1, p[2] + p[3])
                               ELSE [k \in 1..p[3] |-> IF add = <<>> THEN src[p[2] + k] ELSE (src[p[2] + k] + add[p[4] + k]) % Byte]),
           <<>>, plan)

---------------------------------------------------------------------------
(* writing: segments to instructions                                           *)
EncInit == [ints |-> <<>>, exts |-> <<>>, pend |-> 0, at |-> 0, data |-> <<>>, add |-> <<>>]
\* numbers too big for one instruction are divided: steps of nothing on the way to a far place, several pieces for a long copy
One(e, dist, len) == [e EXCEPT !.exts = Append(@, <<dist, len>>), !.pend = @ + 1, !.at = @ + dist + len]
RECURSIVE ExtParts(_, _, _)
ExtParts(e, off, len) ==
  IF off - e.at > Most THEN ExtParts(One(e, Most, 0), off, len)
  ELSE IF e.at - off > Most THEN ExtParts(One(e, -Most, 0), off, len)
  ELSE IF len > Most THEN ExtParts(One(e, off - e.at, Most), off + Most, len - Most)
  ELSE One(e, off - e.at, len)
EncExt(e, off, len, diff) == [ExtParts(e, off, len) EXCEPT !.add = @ \o diff]
RECURSIVE IntParts(_, _)
IntParts(e, n) == LET k == IF n > Most THEN Most ELSE n
                      f == [e EXCEPT !.ints = Append(@, <<e.pend, k>>), !.pend = 0]
                  IN IF n > Most THEN IntParts(f, n - Most) ELSE f
EncInt(e, bytes) == [IntParts(e, Len(bytes)) EXCEPT !.data = @ \o bytes]
EncEnd(e) == IF e.pend > 0 THEN [e EXCEPT !.ints = Append(@, <<e.pend, 0>>), !.pend = 0] ELSE e

---------------------------------------------------------------------------
Strings(n) == UNION {[1..k -> 0..Byte - 1] : k \in 0..n}
VARIABLES src, enc, tgt, withadd
vars == <<src, enc, tgt, withadd>>
Init == src \in Strings(MaxSrc) /\ enc = EncInit /\ tgt = <<>> /\ withadd \in BOOLEAN
TakeExt == \E off \in 0..Len(src) - 1 : \E len \in 1..Len(src) - off : \E diff \in [1..len -> 0..Byte - 1] :
             /\ Len(tgt) + len <= MaxTgt
             /\ ~withadd => \A k \in 1..len : diff[k] = 0
             /\ enc' = EncExt(enc, off, len, diff)
             /\ tgt' = tgt \o [k \in 1..len |-> (src[off + k] + diff[k]) % Byte]
             /\ UNCHANGED <<src, withadd>>
TakeInt == \E b \in Strings(MaxTgt - Len(tgt)) : Len(b) > 0 /\ enc' = EncInt(enc, b) /\ tgt' = tgt \o b /\ UNCHANGED <<src, withadd>>
Next == TakeExt \/ TakeInt
Spec == Init /\ [][Next]_vars

E2 == EncEnd(enc)
Run == Exec(E2.ints, E2.exts, Len(src), Len(E2.data))
Reconstructs == Complete(Run, E2.ints, E2.exts, Len(E2.data)) /\ Run.len = Len(tgt)
                /\ Bytes(Run.plan, src, E2.data, IF withadd THEN E2.add ELSE <<>>) = tgt
Fits == \A i \in 1..Len(E2.exts) : E2.exts[i][1] \in -Most..Most /\ E2.exts[i][2] \in 0..Most
FitsInt == \A i \in 1..Len(E2.ints) : E2.ints[i][2] \in 0..Most
AddExact == Run.ao = Len(E2.add) /\ (~withadd => Bytes(Run.plan, src, E2.data, <<>>) = tgt)
=============================================================================
