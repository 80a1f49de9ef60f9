------------------------------- MODULE IoTrace -------------------------------
(* Operations observed from outside - every call they made to the system, the  *)
(* failures given to them, and what came out - against Io.tla.                 *)
EXTENDS Io, Json
Log == ndJsonDeserialize("trace.ndjson")
VARIABLES l, ref         \* ref: answer and outputs of the undisturbed operation
E == Log[l]
Complain(ok, what) == IF ok THEN TRUE ELSE PrintT(ToJson([line |-> l, expected |-> what]))
TInit == l = 1 /\ fds = NoFds /\ temps = {} /\ bad = {} /\ ref = [rc |-> "none", outs |-> <<>>]
Reset == fds' = NoFds /\ temps' = {} /\ bad' = {}
Io1 ==
  CASE E.c = "open"   -> IF E.r >= 0 THEN Open(E.r, E.role, E.p, E.w) ELSE OpenFails
    [] E.c = "touch"  -> UNCHANGED <<fds, temps>> /\ Note(E.r >= 0 => Changeable(E.role), "opens for writing what it was not asked to write")
    [] E.c = "temp"   -> IF E.r >= 0 THEN Temp(E.r, E.p) ELSE OpenFails
    [] E.c = "read"   -> Reads(E.fd)
    [] E.c = "write"  -> Writes(E.fd, E.r)
    [] E.c = "close"  -> Close(E.fd)
    [] E.c = "badclose" -> UNCHANGED <<fds, temps>> /\ Note(FALSE, "closes a descriptor that is not open")
    [] E.c = "change" -> Changes(E.role, E.p, E.gone, E.r = 0)
    [] E.c = "rename" -> Renames(E.p, E.q, E.qrole, E.r = 0)
\* the undisturbed operation: its answer is the reference (whether it is right is for the other modules)
Ret ==
  /\ Leaves
  /\ Complain(E.rc \in Answers, Answers)
  /\ Complain(bad' = {}, bad')
  /\ Complain(E.fd = 0, "descriptors left open")
  /\ Complain(E.inputs, "inputs as they were")
  /\ Complain(E.held <= 0, "memory given back")
  /\ IF E.what = "reference" THEN ref' = [rc |-> E.rc, outs |-> E.outs] /\ Complain(E.rc = E.wanted, E.wanted)
     \* other inputs: whatever the answer, nothing is left behind
     ELSE IF E.what = "variant" THEN ref' = ref /\ Complain(E.wanted = "any" \/ E.rc = E.wanted, E.wanted)
     ELSE /\ ref' = ref
          /\ IF E.what = "again" \/ E.hits = 0 THEN Complain(E.rc = ref.rc /\ (E.rc = "OK" => E.outs = ref.outs), ref)
             \* a premature end of file is the end of a shorter file to someone who copies without looking inside
             ELSE IF E.opaque THEN TRUE
             ELSE Complain(Honest(E.rc, E.outs, ref.rc, ref.outs), [anyError |-> TRUE, orExactly |-> ref])
TNext == /\ l <= Len(Log) /\ l' = l + 1
         /\ IF E.e = "case" THEN Reset /\ ref' = [rc |-> "none", outs |-> <<>>]
            ELSE IF E.e = "call" THEN Reset /\ ref' = ref
            ELSE IF E.e = "io" THEN Io1 /\ ref' = ref
            ELSE Ret
TSpec == TInit /\ [][TNext]_<<iovars, l, ref>>
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
