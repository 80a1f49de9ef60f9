----------------------------- MODULE CopiesTrace -----------------------------
(* Recorded deltas executed by the Copies machine. Small ones are rebuilt to    *)
(* the byte here; for big ones the harness reports, per step of the plan it     *)
(* followed, whether the bytes were right, and the plan is decided here.        *)
EXTENDS Copies
Log == ndJsonDeserialize("trace.ndjson")
VARIABLE l
E == Log[l]
Complain(ok, what) == IF ok THEN TRUE ELSE PrintT(ToJson([line |-> l, expected |-> what]))
TInit == l = 1 /\ src = <<>> /\ enc = EncInit /\ tgt = <<>> /\ withadd = FALSE
Decide(m) ==
  /\ Complain(Complete(m, E.ints, E.exts, E.intlen), "copies in range, all external copies and internal data used")
  /\ Complain(m.len = E.tgtlen, [length |-> m.len])
  /\ Complain(E.hasadd => E.addlen = m.ao, [addlen |-> m.ao])
  /\ Complain(E.srclen_stored = E.needed, [srclen |-> "external data length recorded"])
  /\ IF E.full THEN Complain(~m.bad /\ (E.hasadd => Len(E.add) >= m.ao) /\ Bytes(m.plan, E.src, E.int, E.add) = E.tgt, "the target, byte for byte")
     ELSE Complain(E.plan = m.plan /\ (\A k \in DOMAIN E.right : E.right[k]), "every step of the plan gives the bytes of the target")
TNext == /\ l <= Len(Log) /\ l' = l + 1
         /\ IF E.e = "case" THEN TRUE ELSE Decide(Exec(E.ints, E.exts, E.srclen, E.intlen))
         /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, vars>>
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
