----------------------------- MODULE BlocksTrace -----------------------------
(* What the library rebuilt when following a plan: for every plan, under every *)
(* limit, the bytes of the source at the places copied. The library may do so   *)
(* in any way that keeps to the limit on open files and leaves nothing open.    *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
Log == ndJsonDeserialize("trace.ndjson")
VARIABLES l, src
E == Log[l]
Complain(ok, what) == IF ok THEN TRUE ELSE PrintT(ToJson([line |-> l, expected |-> what]))
Piece(c) == SubSeq(src, c[1] + 1, c[1] + c[2])
Wanted(cs) == FoldLeft(LAMBDA a, c : a \o Piece(c), <<>>, cs)
\* files of the source that are open: every opening and closing in order
Open(ev) == FoldLeft(LAMBDA m, x : LET n == m.now + x IN [now |-> n, most |-> IF n > m.most THEN n ELSE m.most], [now |-> 0, most |-> 0], ev)
Decide ==
  /\ Complain(E.rc = "OK", "OK")
  /\ E.rc = "OK" => IF E.small THEN Complain(E.out = Wanted(E.plan), "the bytes of the source at the places copied")
                    ELSE Complain(\A i \in DOMAIN E.right : E.right[i], "every copy gives the bytes of the source")
  /\ E.files # <<>> => LET o == Open(E.files) IN Complain(o.now = 0 /\ o.most <= E.limit + 1, [open |-> "at most the limit, none left"])
TInit == l = 1 /\ src = <<>>
TNext == /\ l <= Len(Log) /\ l' = l + 1
         /\ IF E.e = "case" THEN src' = E.src ELSE src' = src /\ Decide
TSpec == TInit /\ [][TNext]_<<l, src>>
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
