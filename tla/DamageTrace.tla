----------------------------- MODULE DamageTrace -----------------------------
(* Recorded applications with damaged inputs: a success must have written the  *)
(* target, and undamaged inputs must succeed.                                  *)
EXTENDS Damage
Log == ndJsonDeserialize("trace.ndjson")
VARIABLE l
E == Log[l]
Complain(ok, what) == IF ok THEN TRUE ELSE PrintT(ToJson([line |-> l, expected |-> what]))
TInit == Init /\ l = 1 /\ ty = [type |-> "rpmonly", version |-> 3] /\ digest = "full"
TNext == /\ l <= Len(Log) /\ l' = l + 1
         /\ IF E.e = "case" THEN rc' = "none" /\ out' = "none" /\ digest' = E.digest
            ELSE /\ rc' = E.rc /\ UNCHANGED digest
                 /\ out' = E.out
                 /\ Complain(/\ E.rc \in Errors \cup {"OK"}
                             /\ SuccessIsTarget'
                             /\ E.damage = 0 => E.rc = "OK"
                             /\ E.intact, "an error, or the target written; inputs as they were")
         /\ UNCHANGED <<ty, via, dmg, made>>
TSpec == TInit /\ [][TNext]_<<l, vars>>
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
