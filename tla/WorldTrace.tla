----------------------------- MODULE WorldTrace -----------------------------
(* Decides recorded sessions: every logged call must have an outcome World     *)
(* allows in the state the preceding calls led to. A disagreement is reported  *)
(* and the walk goes on from the state World prescribes.                       *)
EXTENDS World, Json
Log == ndJsonDeserialize("trace.ndjson")
VARIABLES l, pk, made, files, bad
tvars == <<l, pk, made, files, bad, vars>>

Lookup(f, k, dflt) == IF k \in DOMAIN f THEN f[k] ELSE dflt
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
PkgRec(p) == Lookup(pk, p, NoPkg)
TInit == /\ l = 1 /\ pk = [x \in {} |-> 0] /\ made = [x \in {} |-> 0] /\ files = [x \in {} |-> 0] /\ bad = {}
         /\ slots = [x \in {} |-> 0] /\ db = {} /\ out = "absent" /\ env = "plain" /\ act = <<"init">>
Slot(s) == Lookup(slots, s, NoDelta)
E == Log[l]
Complain(ok, what) == IF ok THEN bad' = bad
                      ELSE bad' = Append(<<>>, E) /\ PrintT(ToJson([line |-> l, expected |-> what]))
Keep == UNCHANGED <<out, env, act>>

NewCase == E.e = "case" /\ pk' = [x \in {} |-> 0] /\ slots' = [x \in {} |-> 0] /\ db' = {} /\ made' = [x \in {} |-> 0]
           /\ Complain(TRUE, "") /\ Keep /\ UNCHANGED files
NewProcess == E.e = "process" /\ Complain(TRUE, "") /\ Keep /\ UNCHANGED <<files, pk, slots, db, made>>
DefPkg == E.e = "pkg" /\ pk' = Put(pk, E.name, [id |-> E.id, nevr |-> E.nevr, sig |-> E.sig, meta |-> E.meta, data |-> E.data, nfiles |-> E.nfiles, source |-> E.source, odd |-> E.odd])
          /\ Complain(TRUE, "") /\ Keep /\ UNCHANGED <<slots, db, made, files>>
TMake == /\ E.e = "make"
         /\ LET rcs == MakeOutcomes(E.type, E.version, E.oldk, PkgRec(E.old), E.newk, PkgRec(E.new))
                rc == IF E.rc \in rcs THEN E.rc ELSE MakeOutcome(E.type, E.version, E.oldk, E.newk)
                d == MadeDelta(E.type, E.version, E.oldk, PkgRec(E.old), E.newk, PkgRec(E.new))
                key == <<E.type, E.version, E.oldk, E.old, E.newk, E.new, E.opts>>
                same == rc # "OK" \/ key \notin DOMAIN made \/ made[key] = E.digest
            IN /\ slots' = IF rc = "OK" THEN Put(slots, E.slot, d) ELSE slots
               /\ made' = IF rc = "OK" THEN Put(made, key, E.digest) ELSE made
               /\ Complain(E.rc = rc /\ same /\ E.wellformed, [rc |-> rcs, digest |-> Lookup(made, key, E.digest), wellformed |-> TRUE])
         /\ Keep /\ UNCHANGED <<pk, db, files>>
TApply == /\ E.e = "apply"
          /\ LET v == IF E.pkgk = "null" THEN ApplyInstalledVerdict(Slot(E.slot), {PkgRec(p) : p \in db})
                      ELSE ApplyVerdict(Slot(E.slot), E.pkgk, PkgRec(E.pkg))
             IN Complain(E.rc \in v /\ (E.rc = "OK" => E.out = Output(Slot(E.slot))),
                         [rc |-> v, out |-> IF "OK" \in v THEN Output(Slot(E.slot)) ELSE "anything"])
          /\ Keep /\ UNCHANGED <<pk, slots, db, made, files>>
TCheck == /\ E.e = "check"
          /\ LET v == CheckVerdict(Slot(E.slot), {PkgRec(p) : p \in db}) IN Complain(E.rc \in v, v)
          /\ Keep /\ UNCHANGED <<pk, slots, db, made, files>>
TCheckSeq == /\ E.e = "checkseq"
             /\ LET v == IF E.pkgk = "missing" THEN {"IO"} ELSE IF E.pkgk = "junk" THEN {"FORMAT"} ELSE CheckSeqVerdict(Slot(E.slot), PkgRec(E.pkg))
                IN Complain(E.rc \in v, v)
             /\ Keep /\ UNCHANGED <<pk, slots, db, made, files>>
TRead == /\ E.e = "read"
         /\ LET d == Slot(E.slot) IN
            IF d.type = "none" THEN Complain(E.rc = "IO", "IO")
            ELSE Complain(E.rc = "OK" /\ E.src = d.src.nevr /\ E.tgt = d.tgt.nevr /\ E.type = d.type /\ E.version = d.version,
                          [rc |-> "OK", src |-> d.src.nevr, tgt |-> d.tgt.nevr, type |-> d.type, version |-> d.version])
         /\ Keep /\ UNCHANGED <<pk, slots, db, made, files>>
TSetDb == E.e = "setdb" /\ db' = {E.pkgs[k] : k \in DOMAIN E.pkgs} /\ Complain(TRUE, "") /\ Keep /\ UNCHANGED <<pk, slots, made, files>>
TNext == /\ l <= Len(Log) /\ l' = l + 1
         /\ NewCase \/ NewProcess \/ DefPkg \/ TMake \/ TApply \/ TCheck \/ TCheckSeq \/ TRead \/ TSetDb
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
