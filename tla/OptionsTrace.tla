---------------------------- MODULE OptionsTrace -----------------------------
(* Calls made on real options objects and the deltas made with them.           *)
EXTENDS Options
Log == ndJsonDeserialize("trace.ndjson")
VARIABLE l, pkg, seen      \* pkg: compression and level of the new package; seen: effective settings -> digest
E == Log[l]
Complain(ok, what) == IF ok THEN TRUE ELSE PrintT(ToJson([line |-> l, expected |-> what]))
TInit == l = 1 /\ Init /\ pkg = [comp |-> 0, level |-> 0] /\ seen = <<>>
\* which settings decide the bytes of the delta (the sequence file's name does not)
Key(s) == ToString([s EXCEPT !.seq = "none"])
Files(s) == IF s.seq = "none" THEN {} ELSE {s.seq}
ToSet(q) == {q[k] : k \in DOMAIN q}
Outcome(s) ==
  LET o == E.got
      comp == IF s.comp = -1 THEN pkg.comp ELSE s.comp
      level == IF s.comp = -1 THEN pkg.level ELSE s.level
  IN /\ o.type = s.type /\ o.version = s.version
     /\ o.comp = comp /\ (level = 0 \/ comp = 0 \/ level \in ToSet(o.levels))
     /\ (s.add = -1 => o.add = -1) /\ (s.add # -1 => o.add = s.add /\ (s.addlevel = 0 \/ s.add = 0 \/ s.addlevel \in ToSet(o.addlevels)))
     /\ ToSet(o.seqfiles) = Files(s) /\ o.seqok
     /\ Key(s) \in DOMAIN seen => seen[Key(s)] = o.digest
Act ==
  LET o == E.op IN
  CASE o.op = "oinit" -> Create(o.i)
    [] o.op = "oinitnull" -> CreateNowhere
    [] o.op = "odestroy" -> Destroy(o.i)
    [] o.op = "odefaults" -> Reset(o.i)
    [] o.op = "ocopy" -> Copy(o.i, o.j)
    [] o.op = "otype" -> SetType(o.i, o.a)
    [] o.op = "over" -> SetVersion(o.i, o.a)
    [] o.op = "ocomp" -> SetComp(o.i, o.a, o.b)
    [] o.op = "orpm" -> FromRpm(o.i)
    [] o.op = "oforbid" -> Forbid(o.i)
    [] o.op = "oaddblk" -> SetAdd(o.i, o.a, o.b)
    [] o.op = "oseq" -> SetSeq(o.i, o.s)
    [] o.op = "opatches" -> SetPatches(o.i, o.s)
    [] o.op = "make" -> Make(o.i)
TNext == /\ l <= Len(Log) /\ l' = l + 1
         /\ IF E.e = "case" THEN pkg' = E.pkg /\ seen' = <<>> /\ opt' = [i \in 1..NO |-> Absent] /\ last' = [op |-> "start", rc |-> "OK", i |-> 0]
            ELSE /\ Act /\ UNCHANGED pkg
                 /\ IF E.rc # last'.rc THEN Complain(FALSE, last'.rc) /\ UNCHANGED seen
                    ELSE IF E.op.op = "make" THEN LET s == last'.eff IN
                         IF E.rc = "OK" THEN Complain(Outcome(s), s) /\ seen' = (Key(s) :> E.got.digest) @@ seen
                         ELSE Complain(E.rc = "ARGS" => E.got.files = <<>>, "nothing written") /\ UNCHANGED seen
                    ELSE UNCHANGED seen
TSpec == TInit /\ [][TNext]_<<vars, l, pkg, seen>>
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
