-------------------------------- MODULE Args ---------------------------------
(* Every public operation as a function of what its arguments are: missing,    *)
(* unknown values, impossible together, files that are not there or not what   *)
(* they should be.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Ops         \* operations to enumerate

\* what a name given for an input is
Gone     == {"missing", "dangling", "noparent", "noname", "denied"}
NotIt    == {"empty", "junk", "text", "lead"}             \* (lead: only the first bytes of the real thing)
PkgIn    == {"null", "ok", "other", "source", "dir", "delta"} \cup Gone \cup NotIt
DeltaIn  == {"null", "standard", "rpmonly", "sourcedelta", "dir", "package"} \cup Gone \cup NotIt
Out      == {"null", "fresh", "existing", "dir", "noparent", "noname", "denied"}
Opts     == {"none", "v1", "v2", "v3", "rpmonly", "rpmonly1", "rpmonly2", "seq", "seqexisting", "seqdir", "seqnoparent", "seqnoname", "seqdenied"}
Seqs     == {"null", "standard", "rpmonly", "noname", "junk"}
Modes    == {-2147483647, -1, 0, 1, 2, 3, 4, 99, 256, 65536}
Types    == {0, 1, 2, 3, 255, 256, 257, 65535}
Versions == {0, 1, 2, 3, 4, 255, 256, 257, 259, 65535}
Comps    == 0..9 \cup {255, 256, 257, 262, 65535}
Levels   == 0..11 \cup {99, 255, 256, 257, 265, 65535}
Getters  == {"gu", "gul", "gull", "gs", "ga"}
Tags     == -1..20
Codes    == -2..13
Known    == 0..10

RpmOnly(o) == o \in {"rpmonly", "rpmonly1", "rpmonly2"}
\* a standard delta is laid out like a package, which cannot be the new one, and is not the one a delta was made from
BadPkg(c) == CASE c \in Gone -> {"IO"} [] c = "dir" -> {"IO", "FORMAT"} [] c \in NotIt -> {"FORMAT"} [] c = "delta" -> {"FORMAT", "MISMATCH"} [] OTHER -> {}
BadNew(c) == BadPkg(c) \ {"MISMATCH"}
\* (an rpm-only delta takes the old package, or both, as they are)
DeltaAsPkg(c) == RpmOnly(c.opts) /\ ((c.old = "delta" /\ c.new # "delta") \/ (c.old = "null" /\ c.new = "delta"))
BadIn(c, x) == IF x = "delta" /\ DeltaAsPkg(c) THEN {} ELSE BadNew(x)
BadDelta(c) == CASE c \in Gone -> {"IO"} [] c = "dir" -> {"IO", "FORMAT"} [] c \in NotIt \cup {"package"} -> {"FORMAT"} [] OTHER -> {}
BadOut(c) == IF c \in {"dir", "noparent", "noname", "denied"} THEN {"IO"} ELSE {}
SeqOut(o) == CASE o = "seq" -> "fresh" [] o = "seqexisting" -> "existing" [] o = "seqdir" -> "dir" [] o = "seqnoparent" -> "noparent" [] o = "seqnoname" -> "noname" [] o = "seqdenied" -> "denied" [] OTHER -> "null"

\* outcomes allowed when the arguments themselves are good: any of the reasons to refuse, success without any
Any1(reasons) == IF reasons = {} THEN {"OK"} ELSE reasons

Outcome(c) ==
  CASE c.op = "make" ->
         IF c.delta = "null" \/ (c.old = "null" /\ c.new = "null") \/ c.opts \in {"rpmonly1", "rpmonly2"} THEN {"ARGS"}
         ELSE LET bad == BadIn(c, c.old) \cup BadIn(c, c.new) \cup BadOut(c.delta) \cup BadOut(SeqOut(c.opts))
              IN IF DeltaAsPkg(c) THEN Any1(bad) \cup {"FORMAT"} ELSE Any1(bad)
    [] c.op = "apply" ->
         IF c.delta = "null" \/ c.new = "null" THEN {"ARGS"}
         ELSE IF BadDelta(c.delta) = {} /\ c.old = "null" /\ c.delta # "standard" THEN {"ARGS"} \cup BadOut(c.new)
         ELSE Any1(BadDelta(c.delta) \cup BadPkg(c.old) \cup BadOut(c.new)
                   \cup (IF BadDelta(c.delta) # {} \/ BadPkg(c.old) # {} THEN {}
                         ELSE IF c.old = "null" THEN {"NOINSTALL"}
                         ELSE IF c.old = (IF c.delta = "sourcedelta" THEN "source" ELSE "ok") THEN {} ELSE {"MISMATCH"}))
    [] c.op = "check" ->
         IF c.delta = "null" \/ c.mode \notin {1, 2} THEN {"ARGS"} ELSE IF BadDelta(c.delta) # {} THEN BadDelta(c.delta) ELSE {"NOINSTALL"}
    [] c.op = "checkseq" ->
         IF c.seq = "null" \/ c.mode \notin 0..2 \/ (c.old # "null" /\ c.mode # 0) THEN {"ARGS"}
         ELSE Any1((IF c.seq \in {"noname", "junk"} THEN {"FORMAT"} ELSE {}) \cup BadPkg(c.old)
                   \cup (IF c.seq \in {"noname", "junk"} \/ BadPkg(c.old) # {} THEN {}
                         ELSE IF c.old = "null" THEN (IF c.seq = "rpmonly" THEN {"MISMATCH", "NOINSTALL"} ELSE {"NOINSTALL"})
                         ELSE IF c.old = "ok" THEN {} ELSE {"MISMATCH"}))
    [] c.op = "read" -> IF c.delta = "null" \/ c.target = "null" THEN {"ARGS"} ELSE Any1(BadDelta(c.delta))
    [] c.op = "destroy" -> IF c.target = "handle" THEN {"OK"} ELSE {"ARGS"}
    [] c.op = "get" -> IF c.target # "handle" \/ c.null # 0 THEN {"ARGS"} ELSE {"OK", "ARGS"}     \* which ones: Handle.tla
    [] c.op = "strerror" -> {"OK"}
    [] c.op = "oinit" -> IF c.target = "null" THEN {"ARGS"} ELSE {"OK"}
    [] c.op = "ocopy" -> IF c.target # "object" \/ c.from # "object" THEN {"ARGS"} ELSE {"OK"}
    [] c.op \in {"odestroy", "odefaults", "orpm", "oforbid"} -> IF c.target # "object" THEN {"ARGS"} ELSE {"OK"}
    [] c.op = "oseq" -> IF c.target # "object" THEN {"ARGS"} ELSE {"OK"}
    [] c.op = "opatches" -> IF c.target # "object" \/ c.a = "null" \/ c.b = "null" THEN {"ARGS"} ELSE {"OK"}
    [] c.op = "otype" -> IF c.target # "object" \/ c.a \notin {0, 1} THEN {"ARGS"} ELSE {"OK"}
    [] c.op = "over" -> IF c.target # "object" \/ c.a \notin 1..3 THEN {"ARGS"} ELSE {"OK"}
    [] c.op \in {"ocomp", "oaddblk"} -> IF c.target # "object" \/ c.a \notin 0..6 \/ c.b \notin 0..9 THEN {"ARGS"} ELSE {"OK"}

Targets == {"object", "null"}
Cases == UNION {
  [op : {"make"}, old : PkgIn, new : PkgIn, delta : Out, opts : Opts],
  [op : {"apply"}, old : PkgIn, delta : DeltaIn, new : Out],
  [op : {"check"}, delta : DeltaIn, mode : Modes],
  [op : {"checkseq"}, old : PkgIn, seq : Seqs, mode : Modes],
  [op : {"read"}, delta : DeltaIn, target : {"handle", "null"}],
  [op : {"destroy"}, target : {"handle", "null", "empty"}],
  [op : {"get"}, g : Getters, tag : Tags, target : {"handle", "empty"}, null : {0, 1}],
  [op : {"get"}, g : {"ga"}, tag : Tags, target : {"handle", "empty"}, null : {2, 3}],
  [op : {"strerror"}, code : Codes],
  [op : {"oinit"}, target : Targets],
  [op : {"odestroy"}, target : Targets \cup {"empty"}],
  [op : {"odefaults", "orpm", "oforbid"}, target : Targets],
  [op : {"ocopy"}, target : Targets, from : Targets],
  [op : {"oseq"}, target : Targets, a : {"null", "name"}],
  [op : {"opatches"}, target : Targets, a : {"null", "name"}, b : {"null", "name"}],
  [op : {"otype"}, target : Targets, a : Types],
  [op : {"over"}, target : Targets, a : Versions],
  [op : {"ocomp", "oaddblk"}, target : Targets, a : Comps, b : Levels]}

VARIABLES c, rc, done
vars == <<c, rc, done>>
Init == c \in {x \in Cases : x.op \in Ops} /\ rc = "none" /\ done = {}
\* names an operation would write to
Writes(x) == CASE x.op = "make" -> {<<"delta", x.delta>>, <<"seq", SeqOut(x.opts)>>} [] x.op = "apply" -> {<<"new", x.new>>} [] OTHER -> {}
Call == /\ rc = "none" /\ rc' \in Outcome(c)
        /\ done' \in (IF rc' = "ARGS" THEN {{}} ELSE IF rc' = "OK" THEN {{w \in Writes(c) : w[2] # "null"}} ELSE SUBSET Writes(c)) /\ UNCHANGED c
Spec == Init /\ [][Call]_vars

Decided == Outcome(c) # {} /\ Outcome(c) \subseteq {"OK", "ARGS", "IO", "FORMAT", "MISMATCH", "NOINSTALL"}
\* refusing arguments does nothing, and no other reason hides it, except where it takes reading the delta to see it
ArgsFirst == "ARGS" \in Outcome(c) => Outcome(c) = {"ARGS"} \/ c.op = "get" \/ (c.op = "apply" /\ c.old = "null" /\ BadOut(c.new) # {})
NothingDone == rc = "ARGS" => done = {}
\* success takes arguments that are all there and good
Success == "OK" \in Outcome(c) =>
  CASE c.op = "make" -> {c.old, c.new} \cap (Gone \cup NotIt \cup {"dir"}) = {} /\ (c.new = "delta" => c.old = "null" /\ RpmOnly(c.opts)) /\ c.delta \in {"fresh", "existing"} /\ {c.old, c.new} # {"null"}
    [] c.op = "apply" -> c.old \in {"ok", "source"} /\ c.new \in {"fresh", "existing"}
    [] c.op = "checkseq" -> c.mode = 0 /\ c.old = "ok"
    [] OTHER -> TRUE
Emit == rc # "none" \/ PrintT(ToJson(c))
=============================================================================
