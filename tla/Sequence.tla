------------------------------ MODULE Sequence ------------------------------
(* The sequence ID of a standard delta: which files of the source package's   *)
(* header the archive contains, and in which order. Numbers are written in     *)
(* groups of three bits, least significant first, bit 3 of a nibble meaning    *)
(* "more follows"; runs and gaps alternate and a zero announces a jump.        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS MaxFiles,    \* encode: all orders over up to this many files
          MaxNibbles,  \* decode: all nibble strings up to this length
          DecFiles,    \* decode: number of files in the package
          Mode         \* "encode" | "decode"

---------------------------------------------------------------------------
(* Encoder: state [start, last, out]; run = files start..last seen so far.    *)
RECURSIVE EncNum(_)
EncNum(n) == IF n < 8 THEN <<n>> ELSE <<8 + (n % 8)>> \o EncNum(n \div 8)

EncInit == [start |-> 0, last |-> -1, out |-> <<>>]
FlushRun(s) == IF s.last - s.start + 1 > 0 THEN s.out \o EncNum(s.last - s.start + 1) ELSE s.out
EncAdd(s, i) ==
  IF i = s.last + 1 THEN [s EXCEPT !.last = i]
  ELSE [start |-> i, last |-> i,
        out |-> FlushRun(s) \o (IF s.last >= 0 /\ i > s.last + 1
                                THEN EncNum(i - (s.last + 1))
                                ELSE <<0>> \o EncNum(i))]
EncFinal(s) == FlushRun(s)

Encode(order) == EncFinal(FoldLeft(EncAdd, EncInit, order))
\* whole bytes: a last lone nibble is followed by an empty one
Padded(nibs) == IF Len(nibs) % 2 = 1 THEN Append(nibs, 0) ELSE nibs

---------------------------------------------------------------------------
(* Decoder, one nibble at a time.                                             *)
DecInit == [num |-> 0, mul |-> 1, jump |-> FALSE, run |-> TRUE, pos |-> 0, files |-> <<>>, bad |-> FALSE]
Cap == 1000000                        \* far beyond any file count
Min2(a, b) == IF a < b THEN a ELSE b
Iota(p, n) == [k \in 1..n |-> p + k - 1]
DecStep(s, nib, count) ==
  IF s.bad THEN s
  ELSE IF nib >= 8
  THEN [s EXCEPT !.num = Min2(Cap, @ + (nib - 8) * s.mul), !.mul = Min2(Cap, @ * 8)]
  ELSE LET n == Min2(Cap, s.num + nib * s.mul)
           t == [s EXCEPT !.num = 0, !.mul = 1]
       IN IF t.jump THEN [t EXCEPT !.pos = n, !.jump = FALSE, !.run = TRUE]
          ELSE IF n = 0 THEN [t EXCEPT !.jump = TRUE]
          ELSE IF ~t.run THEN [t EXCEPT !.pos = Min2(Cap, @ + n), !.run = TRUE]
          ELSE IF t.pos + n > count \/ Len(t.files) + n > count THEN [t EXCEPT !.bad = TRUE]
          ELSE [t EXCEPT !.files = @ \o Iota(t.pos, n), !.pos = @ + n, !.run = FALSE]
DecAll(s, nibs, count) == FoldLeft(LAMBDA a, n : DecStep(a, n, count), s, nibs)
\* an unfinished number is malformed
Decode(nibs, count) ==
  LET s == DecAll(DecInit, nibs, count)
  IN [ok |-> ~s.bad /\ s.mul = 1, files |-> IF ~s.bad /\ s.mul = 1 THEN s.files ELSE <<>>]

---------------------------------------------------------------------------
(* Model: the encoder and the decoder driven by every input within bounds.    *)
VARIABLES inp, enc, dec
vars == <<inp, enc, dec>>

Init == inp = <<>> /\ enc = EncInit /\ dec = DecInit
AddFile(i) ==
  /\ Mode = "encode" /\ \A k \in DOMAIN inp : inp[k] # i
  /\ inp' = Append(inp, i) /\ enc' = EncAdd(enc, i) /\ UNCHANGED dec
AddNibble(n) ==
  /\ Mode = "decode" /\ Len(inp) < MaxNibbles
  /\ inp' = Append(inp, n) /\ dec' = DecStep(dec, n, DecFiles) /\ UNCHANGED enc
Next == (\E i \in 0..MaxFiles - 1 : AddFile(i)) \/ (\E n \in 0..15 : AddNibble(n))
Spec == Init /\ [][Next]_vars

\* the encoding of every order decodes to that order, with or without padding
RoundTrip == Mode = "encode" =>
  LET e == EncFinal(enc) d == Decode(e, MaxFiles) p == Decode(Padded(e), MaxFiles)
  IN d.ok /\ d.files = inp /\ p.ok /\ p.files = inp /\ e = Encode(inp)
\* nothing decoded ever names a file that is not there
InRange == \A k \in DOMAIN dec.files : dec.files[k] < DecFiles
NeverTooMany == Len(dec.files) <= DecFiles
\* once malformed, always malformed
StaysBad == [][dec.bad => dec'.bad]_vars

\* emission for the replay on the implementation
Emit ==
  \/ Mode = "encode" /\ PrintT(ToJson([o |-> inp, n |-> Padded(EncFinal(enc))]))
  \/ Mode = "decode" /\ (Len(inp) % 2 = 1
                         \/ PrintT(ToJson([n |-> inp, d |-> Decode(inp, DecFiles)])))
=============================================================================
