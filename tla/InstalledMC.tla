---------------------------- MODULE InstalledMC ----------------------------
(* Enumerates the states of Installed for replay, and random histories.      *)
EXTENDS Installed, Json
EmitState == PrintT(ToJson([db |-> db, fs |-> fs]))
EmitHist == Len(hist) < Depth \/ PrintT(ToJson(hist))
=============================================================================
