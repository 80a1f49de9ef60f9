--------------------------- MODULE InstalledTrace ---------------------------
(* Decides recorded histories of installations, file changes, checks and       *)
(* applications: the walk repeats the state changes with Installed's actions   *)
(* and every observed answer must be one the state allows.                     *)
EXTENDS Installed, Json
Events == ndJsonDeserialize("trace.ndjson")
VARIABLES l, need, tgt
tvars == <<l, need, tgt, vars>>
E == Events[l]
TInit == l = 1 /\ need = {} /\ tgt = "" /\ db = {} /\ fs = [x \in {} |-> ""] /\ act = <<>> /\ hist = <<>>
Need == [f \in need |-> fs[f]]
Is(n) == E.e = n
Complain(ok, what) == IF ok THEN TRUE ELSE PrintT(ToJson([line |-> l, expected |-> what]))
SetOf(s) == {s[k] : k \in DOMAIN s}
TCase == Is("case") /\ need' = SetOf(E.needed) /\ fs' = [f \in SetOf(E.files) |-> "ok"] /\ db' = SetOf(E.db) /\ tgt' = E.tgt
TInstall == Is("install") /\ db' = db \cup {E.v} /\ fs' = (IF E.v = "src" THEN [f \in DOMAIN fs |-> "ok"] ELSE fs) /\ UNCHANGED <<need, tgt>>
TErase == Is("erase") /\ db' = db \ {E.v} /\ fs' = (IF E.v = "src" THEN [f \in DOMAIN fs |-> "gone"] ELSE fs) /\ UNCHANGED <<need, tgt>>
TChange == Is("change") /\ fs' = [fs EXCEPT ![E.f] = E.s] /\ UNCHANGED <<db, need, tgt>>
TFull == Is("full") /\ Complain(E.rc \in FullVerdict(Need, db) /\ E.untouched, FullVerdict(Need, db)) /\ UNCHANGED <<db, fs, need, tgt>>
TSizes == Is("sizes") /\ Complain(E.rc \in SizeVerdict(Need, db) /\ E.untouched, SizeVerdict(Need, db)) /\ UNCHANGED <<db, fs, need, tgt>>
TApply == Is("apply") /\ Complain(E.rc \in ApplyVerdict(Need, db) /\ (E.rc = "OK" => E.out = tgt) /\ E.untouched, [rc |-> ApplyVerdict(Need, db), out |-> tgt])
          /\ UNCHANGED <<db, fs, need, tgt>>
TNext == /\ l <= Len(Events) /\ l' = l + 1 /\ UNCHANGED <<act, hist>>
         /\ TCase \/ TInstall \/ TErase \/ TChange \/ TFull \/ TSizes \/ TApply
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Events)
=============================================================================
