------------------------------ MODULE ArgsTrace ------------------------------
(* Calls made on the library, with what was found afterwards, against Args.tla *)
EXTENDS Args
Log == ndJsonDeserialize("trace.ndjson")
VARIABLE l, texts
E == Log[l]
Complain(ok, what) == IF ok THEN TRUE ELSE PrintT(ToJson([line |-> l, expected |-> what]))
TInit == l = 1 /\ c = [op |-> "start"] /\ rc = "none" /\ done = {} /\ texts = <<>>
ToSet(q) == {q[k] : k \in DOMAIN q}
Fine ==
  LET x == E.c IN
  /\ E.rc \in Outcome(x)
  /\ E.rc = "ARGS" => ~E.touched /\ E.made = <<>> /\ E.changed = <<>>
  /\ E.rc = "OK" => /\ \A w \in Writes(x) : /\ w[2] = "fresh" => w[1] \in ToSet(E.made)
                                            /\ w[2] = "existing" => w[1] \in ToSet(E.changed)
  /\ x.op = "strerror" => E.text # "" /\ (x.code \in Known => \A k \in DOMAIN texts : k # x.code => texts[k] # E.text)
                                      /\ (x.code \notin Known => \A k \in DOMAIN texts : k \in Known => texts[k] # E.text)
Text == IF E.c.op = "strerror" THEN (E.c.code :> E.text) @@ texts ELSE texts
TNext == /\ l <= Len(Log) /\ l' = l + 1
         /\ IF E.e = "case" THEN c' = [op |-> "start"] /\ rc' = "none" /\ done' = {} /\ texts' = <<>>
            ELSE c' = E.c /\ rc' = E.rc /\ done' = {} /\ Complain(Fine, Outcome(E.c)) /\ texts' = Text
TSpec == TInit /\ [][TNext]_<<vars, l, texts>>
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
