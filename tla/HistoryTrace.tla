----------------------------- MODULE HistoryTrace -----------------------------
(* Recorded histories: every answer equals the one first given for its key, and *)
(* at the end of each process the outputs hold what the last calls put there.   *)
EXTENDS History
Log == ndJsonDeserialize("trace.ndjson")
VARIABLES l, tgt, deltas
E == Log[l]
Complain(ok, what) == IF ok THEN TRUE ELSE PrintT(ToJson([line |-> l, expected |-> what]))
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Ans == [rc |-> E.rc, digest |-> E.digest]
TInit == Init /\ l = 1 /\ tgt = <<>> /\ deltas = 0
NewCase == E.e = "case" /\ env' = Start /\ calls' = 0 /\ out' = [t \in Outs |-> <<"absent">>] /\ memo' = [k \in {} |-> 0] /\ last' = [op |-> "init"] /\ tgt' = E.tgt
Op ==
  /\ E.e = "op"
  /\ LET o == E.op k == Key(o) known == k \in DOMAIN memo IN
     /\ Complain(Judged(o) /\ known => memo[k] = Ans, [key |-> k, answer |-> IF known THEN memo[k] ELSE Ans])
     \* made deltas and applied packages are what they should be from the start
     /\ Complain(o.op = "make" => E.rc = "OK", [rc |-> "OK"])
     /\ Complain(o.op = "apply" /\ (o.src = "file" \/ E.standard) => E.rc = "OK" /\ E.digest = tgt[o.j], [rc |-> "OK", digest |-> tgt[o.j]])
     /\ Complain(o.op = "apply" /\ o.src = "installed" /\ ~E.standard => E.rc = "ARGS", [rc |-> "ARGS"])
     /\ Complain(o.op \in {"check", "read"} => E.rc = "OK", [rc |-> "OK"])
     /\ memo' = IF Judged(o) /\ ~known THEN Put(memo, k, Ans) ELSE memo
     /\ out' = After(o, E.rc = "OK")
     /\ calls' = calls + 1 /\ last' = o
  /\ UNCHANGED <<env, tgt>>
Env == E.e = "env" /\ SetEnv(E.env) /\ UNCHANGED tgt
Filled == E.e = "fill" /\ Fill(E.t, E.fill) /\ UNCHANGED tgt
\* what the outputs hold: E.now[t] is a digest; of things put there by hand, "absent" or "fill"
Proc == /\ E.e = "process"
        /\ \A t \in Outs : LET o == out[t] IN
             /\ Complain(o[1] = "absent" => E.now[t] = "absent", [t |-> t, holds |-> o])
             /\ Complain(o \in DOMAIN memo => E.now[t] = memo[o].digest, [t |-> t, holds |-> o])
             /\ Complain(o[1] \in Fills \ {"absent"} => E.now[t] = E.fills[o[1]], [t |-> t, holds |-> o])
        /\ Process /\ UNCHANGED tgt
TNext == l <= Len(Log) /\ l' = l + 1 /\ deltas' = 0 /\ (NewCase \/ Op \/ Env \/ Filled \/ Proc)
TSpec == TInit /\ [][TNext]_<<l, tgt, deltas, vars>>
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
