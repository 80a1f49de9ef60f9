------------------------------- MODULE World -------------------------------
(* The system as its callers see it: package files, deltas made from them,     *)
(* and the outcome of making, applying, reading and checking deltas.           *)
(*                                                                             *)
(* A package (file) is a record                                                *)
(*   id     identity of the file's bytes                                       *)
(*   nevr   name-epoch:version-release                                         *)
(*   sig    digest over header and payload in its signature ("none": absent)   *)
(*   meta   identity of the file metadata a sequence digest covers             *)
(*   data   identity of the archive entries a sequence may name, in order      *)
(*   nfiles number of files in the header                                      *)
(*   source TRUE for a source package                                          *)
(*   odd    TRUE if librpm takes the package's header but does not give it     *)
(*          back as it is in the file (no region, say)                         *)
(* A delta is [type, version, src, tgt, self] with src and tgt packages;       *)
(* self: made from a single package.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoDelta == [type |-> "none"]
NoPkg   == [id |-> "none", nevr |-> "none", sig |-> "none", meta |-> "none", data |-> "none", nfiles |-> 0, source |-> FALSE, odd |-> FALSE]

---------------------------------------------------------------------------
(* Making. kind: "file" a package; "missing" no such file; "junk" no package.  *)
MakeOutcome(type, version, oldk, newk) ==
  IF oldk = "null" /\ newk = "null" THEN "ARGS"
  ELSE IF type = "rpmonly" /\ version < 3 THEN "ARGS"
  ELSE IF oldk = "missing" THEN "IO"
  ELSE IF oldk = "junk" THEN "FORMAT"
  ELSE IF newk = "missing" THEN "IO"
  ELSE IF newk = "junk" THEN "FORMAT"
  ELSE "OK"
\* Data of an odd package cannot be what a digest covers: such a target, or source of an
\* rpm-only delta, is refused unless the delta works all the same.
MakeOutcomes(type, version, oldk, old, newk, new) ==
  LET rc == MakeOutcome(type, version, oldk, newk) IN
  {rc} \cup (IF rc = "OK" /\ (IF newk = "null" THEN old.odd ELSE IF oldk = "null" THEN new.odd ELSE new.odd \/ (type = "rpmonly" /\ old.odd)) THEN {"FORMAT"} ELSE {})
\* a package given alone is source and target
MadeDelta(type, version, oldk, old, newk, new) ==
  [type |-> type, version |-> version,
   src |-> IF oldk = "null" THEN new ELSE old,
   tgt |-> IF newk = "null" THEN old ELSE new,
   self |-> oldk = "null" \/ newk = "null"]

---------------------------------------------------------------------------
(* Is p acceptable as the source of delta d? The set of allowed answers.       *)
SourceVerdict(d, p) ==
  IF d.type = "rpmonly"
  THEN IF p.sig = "none" THEN {"FORMAT", "MISMATCH"}
       ELSE IF p.sig # d.src.sig \/ p.nevr # d.src.nevr THEN {"MISMATCH"} ELSE {"OK"}
  ELSE IF p.nevr # d.src.nevr THEN {"MISMATCH"}
       ELSE IF p.meta = d.src.meta THEN {"OK"}
       \* a sequence may also name files the other package does not have
       ELSE IF p.nfiles < d.src.nfiles THEN {"MISMATCH", "FORMAT"} ELSE {"MISMATCH"}

\* Installed packages: db is a set of packages whose files are as packaged.
DbVerdict(d, db) ==
  IF \A p \in db : p.nevr # d.src.nevr THEN {"NOINSTALL"}
  ELSE UNION {SourceVerdict(d, p) : p \in {q \in db : q.nevr = d.src.nevr}}

\* applying onto an old package file / onto the installed files
ApplyVerdict(d, pk, p) ==
  IF d.type = "none" THEN {"IO"}
  ELSE IF pk = "missing" THEN {"IO"}
  ELSE IF pk = "junk" THEN {"FORMAT"}
  \* a package file with the same metadata but another archive is no source either; whether
  \* that shows depends on what the delta uses, but a success still means the right output
  ELSE SourceVerdict(d, p) \cup (IF d.type = "standard" /\ SourceVerdict(d, p) = {"OK"} /\ p.data # d.src.data THEN {"MISMATCH", "FORMAT"} ELSE {})
\* the target of a standard delta says whether this is a source package
ApplyInstalledVerdict(d, db) ==
  IF d.type = "none" THEN {"IO"}
  ELSE IF d.type = "rpmonly" \/ d.tgt.source THEN {"ARGS"}
  ELSE DbVerdict(d, db)
\* an rpm-only delta's check only looks for its source package
CheckVerdict(d, db) ==
  IF d.type = "none" THEN {"IO"}
  ELSE IF d.type = "rpmonly" THEN (IF \E p \in db : p.nevr = d.src.nevr THEN {"OK"} ELSE {"NOINSTALL"})
  ELSE DbVerdict(d, db)
CheckSeqVerdict(d, p) == SourceVerdict(d, p) \cup
  \* the type of delta is told from the digest, so another digest is taken for a file digest
  (IF d.type = "rpmonly" /\ p.sig # d.src.sig THEN {"MISMATCH"} ELSE {})

\* what a successful apply writes
Output(d) == d.tgt.id

---------------------------------------------------------------------------
(* State machine over a finite set of packages: two delta slots, the set of    *)
(* installed packages, the file the last apply left.                           *)
CONSTANTS Pkgs, Sources, Targets, Dbs, Versions, NSlots, Envs
VARIABLES slots, db, out, env, act
vars == <<slots, db, out, env, act>>
AllTypes == {[type |-> "standard", version |-> v] : v \in Versions} \cup {[type |-> "rpmonly", version |-> 3], [type |-> "rpmonly", version |-> 2]}

Init == slots = [s \in 1..NSlots |-> NoDelta] /\ db = {} /\ out = "absent" /\ env = "plain" /\ act = <<"init">>
KindOf(p) == IF p \in {"null", "missing", "junk"} THEN p ELSE "file"
PkgOf(p) == IF KindOf(p) = "file" THEN Pkgs[p] ELSE NoPkg

Make(s, t, o, n) ==
  LET rcs == MakeOutcomes(t.type, t.version, KindOf(o), PkgOf(o), KindOf(n), PkgOf(n)) IN \E rc \in rcs :
  /\ slots' = IF rc = "OK" THEN [slots EXCEPT ![s] = MadeDelta(t.type, t.version, KindOf(o), PkgOf(o), KindOf(n), PkgOf(n))] ELSE slots
  /\ act' = <<"make", s, t.type, t.version, o, n, rcs>>
  /\ UNCHANGED <<db, out, env>>
Apply(s, p) ==
  LET v == ApplyVerdict(slots[s], KindOf(p), PkgOf(p)) IN
  /\ out' = IF v = {"OK"} THEN Output(slots[s]) ELSE "other"
  /\ act' = <<"apply", s, p, v>>
  /\ UNCHANGED <<slots, db, env>>
ApplyInstalled(s) ==
  LET v == ApplyInstalledVerdict(slots[s], {Pkgs[p] : p \in db}) IN
  /\ out' = IF v = {"OK"} THEN Output(slots[s]) ELSE "other"
  /\ act' = <<"applydb", s, v>>
  /\ UNCHANGED <<slots, db, env>>
Check(s, m) ==
  /\ act' = <<"check", s, m, CheckVerdict(slots[s], {Pkgs[p] : p \in db})>>
  /\ UNCHANGED <<slots, db, out, env>>
CheckSeq(s, p) ==
  /\ slots[s].type # "none"
  /\ act' = <<"checkseq", s, p, IF KindOf(p) = "file" THEN CheckSeqVerdict(slots[s], PkgOf(p)) ELSE IF p = "missing" THEN {"IO"} ELSE {"FORMAT"}>>
  /\ UNCHANGED <<slots, db, out, env>>
Read(s) ==
  /\ act' = <<"read", s, IF slots[s].type = "none" THEN {"IO"} ELSE {"OK"}>>
  /\ UNCHANGED <<slots, db, out, env>>
SetDb(D) == D # db /\ db' = D /\ act' = <<"setdb", D>> /\ UNCHANGED <<slots, out, env>>
SetEnv(e) == e # env /\ env' = e /\ act' = <<"setenv", e>> /\ UNCHANGED <<slots, db, out>>
Next ==
  \/ \E s \in 1..NSlots, t \in AllTypes, o \in Sources, n \in Targets : Make(s, t, o, n)
  \/ \E s \in 1..NSlots, p \in DOMAIN Pkgs \cup {"missing", "junk"} : Apply(s, p) \/ CheckSeq(s, p)
  \/ \E s \in 1..NSlots : ApplyInstalled(s) \/ Read(s) \/ \E m \in {"full", "sizes"} : Check(s, m)
  \/ \E D \in Dbs : SetDb(D)
  \/ \E e \in Envs : SetEnv(e)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties of the design.                                                   *)
\* C01: what was made can be applied to its source and gives its target
RoundTrip == \A s \in 1..NSlots : slots[s].type # "none" /\ (slots[s].type = "standard" \/ slots[s].src.sig # "none") =>
                ApplyVerdict(slots[s], "file", slots[s].src) = {"OK"}
\* C03/C04: a success always comes from the recorded source
OnlySource == act[1] = "apply" /\ "OK" \in act[4] =>
   LET d == slots[act[2]] p == Pkgs[act[3]] IN
     p.nevr = d.src.nevr /\ (IF d.type = "rpmonly" THEN p.sig = d.src.sig ELSE p.meta = d.src.meta) /\ out = d.tgt.id
\* C22: identity deltas
Identity == \A s \in 1..NSlots : slots[s].type # "none" /\ slots[s].self => slots[s].src = slots[s].tgt
\* C19: the environment never decides anything
EnvIrrelevant == [][env' # env => slots' = slots /\ db' = db /\ out' = out]_vars
\* only Make changes deltas and only Apply writes packages
Frame == [][/\ slots' # slots => act'[1] = "make"
            /\ out' # out => act'[1] \in {"apply", "applydb"}
            /\ db' # db => act'[1] = "setdb"]_vars
=============================================================================
