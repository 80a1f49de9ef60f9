------------------------------ MODULE Options -------------------------------
(* The objects that hold the settings for making deltas, the calls on them,    *)
(* and what making a delta with one of them does.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NO,            \* objects
          Rich           \* more values per call, for walks

Types    == IF Rich THEN {0, 1, 2, 255, 256, 65535} ELSE {0, 1, 2}
Versions == IF Rich THEN {0, 1, 2, 3, 4, 255, 256, 257, 65535} ELSE {0, 1, 3, 4}
Comps    == IF Rich THEN {0, 1, 2, 3, 4, 5, 6, 7, 8, 255, 256, 65535} ELSE {0, 2, 7}
Levels   == IF Rich THEN {0, 1, 2, 6, 9, 10, 99, 256, 65535} ELSE {0, 9, 10}
SeqFiles == IF Rich THEN {"none", "s", "sequence", "sequences", "seq-with-a-longer-name"} ELSE {"none", "s"}
Patches  == {"none", "p"}

VARIABLES opt,     \* 1..NO -> settings or absent
          last
vars == <<opt, last>>
Absent   == [live |-> FALSE, type |-> 0, version |-> 0, comp |-> -1, level |-> 0, add |-> -1, addlevel |-> 0, seq |-> "none", patches |-> "none"]
\* comp -1: as in the new package; add -1: none wanted
Defaults == [live |-> TRUE, type |-> 0, version |-> 3, comp |-> -1, level |-> 0, add |-> 2, addlevel |-> 0, seq |-> "none", patches |-> "none"]

GoodComp(c) == c \in 0..6
GoodLevel(l) == l \in 0..9
Done(o, rc) == last' = o @@ [rc |-> rc, i |-> 0]
\* an object nobody made is no object
Change(o, i, good, new) ==
  IF ~opt[i].live \/ ~good THEN Done(o, "ARGS") /\ UNCHANGED opt
  ELSE Done(o, "OK") /\ opt' = [opt EXCEPT ![i] = new]

Make0(i) == IF i = 0 THEN Defaults ELSE opt[i]
Effective(i) == LET s == Make0(i) IN [s EXCEPT !.patches = IF s.type = 1 THEN "none" ELSE @, !.level = IF s.comp < 1 THEN 0 ELSE @, !.addlevel = IF s.add < 1 THEN 0 ELSE @]
MakeOutcome(i) == LET s == Make0(i) IN IF s.type = 1 /\ s.version < 3 THEN "ARGS" ELSE IF s.type = 0 /\ s.patches # "none" THEN "IO" ELSE "OK"

Create(i) == ~opt[i].live /\ Done([op |-> "oinit", i |-> i], "OK") /\ opt' = [opt EXCEPT ![i] = Defaults]
CreateNowhere == Done([op |-> "oinitnull"], "ARGS") /\ UNCHANGED opt
Destroy(i) == IF opt[i].live THEN Done([op |-> "odestroy", i |-> i], "OK") /\ opt' = [opt EXCEPT ![i] = Absent]
              ELSE Done([op |-> "odestroy", i |-> i], "ARGS") /\ UNCHANGED opt
Reset(i) == Change([op |-> "odefaults", i |-> i], i, TRUE, Defaults)
Copy(i, j) == Change([op |-> "ocopy", i |-> i, j |-> j], i, opt[j].live, opt[j])
SetType(i, t) == Change([op |-> "otype", i |-> i, a |-> t], i, t \in {0, 1}, [opt[i] EXCEPT !.type = t])
SetVersion(i, v) == Change([op |-> "over", i |-> i, a |-> v], i, v \in 1..3, [opt[i] EXCEPT !.version = v])
SetComp(i, c, l) == Change([op |-> "ocomp", i |-> i, a |-> c, b |-> l], i, GoodComp(c) /\ GoodLevel(l), [opt[i] EXCEPT !.comp = c, !.level = l])
FromRpm(i) == Change([op |-> "orpm", i |-> i], i, TRUE, [opt[i] EXCEPT !.comp = -1, !.level = 0])
Forbid(i) == Change([op |-> "oforbid", i |-> i], i, TRUE, [opt[i] EXCEPT !.add = -1, !.addlevel = 0])
SetAdd(i, c, l) == Change([op |-> "oaddblk", i |-> i, a |-> c, b |-> l], i, GoodComp(c) /\ GoodLevel(l), [opt[i] EXCEPT !.add = c, !.addlevel = l])
SetSeq(i, s) == Change([op |-> "oseq", i |-> i, s |-> s], i, TRUE, [opt[i] EXCEPT !.seq = s])
SetPatches(i, p) == Change([op |-> "opatches", i |-> i, s |-> p], i, p # "none", [opt[i] EXCEPT !.patches = p])
Make(i) == (IF i = 0 THEN TRUE ELSE opt[i].live) /\ Done([op |-> "make", i |-> i, eff |-> Effective(i)], MakeOutcome(i)) /\ UNCHANGED opt

Init == opt = [i \in 1..NO |-> Absent] /\ last = [op |-> "start", rc |-> "OK", i |-> 0]
Objects == 1..NO
Next ==
  \/ \E i \in Objects : Create(i) \/ Destroy(i) \/ Reset(i) \/ FromRpm(i) \/ Forbid(i)
  \/ CreateNowhere
  \/ \E i, j \in Objects : Copy(i, j)
  \/ \E i \in Objects, t \in Types : SetType(i, t)
  \/ \E i \in Objects, v \in Versions : SetVersion(i, v)
  \/ \E i \in Objects, c \in Comps, l \in Levels : SetComp(i, c, l) \/ SetAdd(i, c, l)
  \/ \E i \in Objects, s \in SeqFiles : SetSeq(i, s)
  \/ \E i \in Objects, p \in Patches : SetPatches(i, p)
  \/ \E i \in Objects \cup {0} : Make(i)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Valid(s) == s.live => /\ s.type \in {0, 1} /\ s.version \in 1..3 /\ s.comp \in -1..6 /\ s.level \in 0..9 /\ s.add \in -1..6 /\ s.addlevel \in 0..9
AllValid == \A i \in Objects : Valid(opt[i])
View == opt
\* a refused call changes nothing; making changes nothing
Refused == [][last'.rc # "OK" \/ last'.op = "make" => opt' = opt]_vars
\* only the object a call names changes
OneAtATime == [][\A i \in Objects : opt'[i] # opt[i] => last'.i = i]_vars
\* what a setting call does not set stays, except that it only applies to existing objects
Sets == [otype |-> {"type"}, over |-> {"version"}, ocomp |-> {"comp", "level"}, orpm |-> {"comp", "level"}, oforbid |-> {"add", "addlevel"}, oaddblk |-> {"add", "addlevel"}, oseq |-> {"seq"}, opatches |-> {"patches"}]
OnlyItsOwn == [][last'.op \in DOMAIN Sets /\ last'.rc = "OK" => \A k \in DOMAIN Absent \ Sets[last'.op] : opt'[last'.i][k] = opt[last'.i][k]]_vars
\* resetting, creating and giving no options are the same
Same == \A i \in Objects : last.op \in {"odefaults", "oinit"} /\ last.rc = "OK" /\ last.i = i => Effective(i) = Effective(0)
CopySame == [][last'.op = "ocopy" /\ last'.rc = "OK" => opt'[last'.i] = opt[last'.j]]_vars

---------------------------------------------------------------------------
One(S) == {RandomElement(IF last = last THEN S ELSE S)}     \* (mentions a variable: TLC would throw constants only once)
GoodSome(S, g) == IF RandomElement(1..5) = 1 THEN S ELSE g
Walk ==
  \E k \in One(1..24), i \in One(Objects), j \in One(Objects) :
     IF k <= 2 THEN IF opt[i].live THEN Make(i) ELSE Create(i)
     ELSE IF k = 3 THEN Make(0)
     ELSE IF k = 4 THEN IF RandomElement(1..3) = 1 THEN CreateNowhere ELSE Destroy(i)
     ELSE IF k = 5 THEN Reset(i)
     ELSE IF k <= 8 THEN Copy(i, j)
     ELSE IF k <= 10 THEN \E t \in One(GoodSome(Types, {0, 1})) : SetType(i, t)
     ELSE IF k <= 12 THEN \E v \in One(GoodSome(Versions, {1, 2, 3, 3})) : SetVersion(i, v)
     ELSE IF k <= 15 THEN \E c \in One(GoodSome(Comps, 0..6)), l \in One(GoodSome(Levels, {0, 1, 2, 6, 9})) : SetComp(i, c, l)
     ELSE IF k = 16 THEN FromRpm(i)
     ELSE IF k = 17 THEN Forbid(i)
     ELSE IF k <= 19 THEN \E c \in One(GoodSome(Comps, 0..6)), l \in One(GoodSome(Levels, {0, 1, 2, 6, 9})) : SetAdd(i, c, l)
     ELSE IF k <= 21 THEN \E s \in One(SeqFiles) : SetSeq(i, s)
     ELSE IF k = 22 /\ RandomElement(1..4) = 1 THEN \E p \in One(Patches) : SetPatches(i, p)
     ELSE IF opt[i].live THEN Make(i) ELSE Create(i)
Step == \E n \in 1..4 : Walk
Walks == Init /\ [][Step]_vars
Emit == PrintT(ToJson([n |-> TLCGet("level"), op |-> last]))
=============================================================================
