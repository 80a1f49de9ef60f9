--------------------------- MODULE CompressionTrace ---------------------------
(* Recorded deltas against Compression: methods, levels, the recorded number,   *)
(* and the package that came out.                                               *)
EXTENDS Compression
Log == ndJsonDeserialize("trace.ndjson")
VARIABLE l
E == Log[l]
Complain(ok, what) == IF ok THEN TRUE ELSE PrintT(ToJson([line |-> l, expected |-> what]))
TInit == l = 1 /\ q = 0 /\ stage = "trace" /\ made = 0 /\ rec = 0 /\ rebuilt = 0
Set(s) == {s[k] : k \in DOMAIN s}
Delta(r) ==
  IF Refused(r) THEN Complain(E.rc = "PROG", [rc |-> "PROG"])
  ELSE /\ Complain(E.rc = "OK", [rc |-> "OK"])
       /\ IF E.rc # "OK" THEN TRUE
          ELSE /\ Complain(E.body = Body(r).m /\ Body(r).l \in Set(E.bodylevels), [body |-> Body(r)])
               /\ Complain(Add(r) = NoBlock => E.add = "forbidden", [add |-> "none"])
               \* an add block there is nothing to say with is left out
               /\ Complain(Add(r) # NoBlock /\ E.add # "forbidden" => E.add = Add(r).m /\ Add(r).l \in Set(E.addlevels), [add |-> Add(r)])
               /\ Complain(Add(r) # NoBlock /\ E.differs => E.add # "forbidden", [add |-> Add(r)])
               /\ Complain(E.recorded = Written(r), [recorded |-> Written(r)])
               /\ Complain(E.apply = "OK" /\ E.same, "the target, byte for byte")
Setter == Complain(E.rc = (IF E.m \in 0..6 /\ E.l \in Levels THEN "OK" ELSE "ARGS"), [rc |-> "OK for methods 0 to 6 and levels 0 to 9, ARGS otherwise"])
TNext == /\ l <= Len(Log) /\ l' = l + 1
         /\ IF E.e = "case" THEN TRUE ELSE IF E.e = "set" THEN Setter ELSE Delta(E.q)
         /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, vars>>
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
