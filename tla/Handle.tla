------------------------------- MODULE Handle -------------------------------
(* Handles on deltas and the answers obtained from them. Everything lives in   *)
(* cells of memory: a handle has one per item it can be asked for, an answer   *)
(* has one of its own. Callers may write over and give back their answers.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names,       \* of files
          Contents,    \* deltas that exist
          NH, NR,      \* handles, answers a caller keeps
          MaxCell

Tags == 0..18
BadTags == {-1, 19, 255}
Getters == {"gu", "gul", "gull", "gs", "ga"}
\* the documented type of every item; whole numbers may be had wider than needed
Small == {1, 2, 3, 7, 9}
Long  == {11, 14}
Wide  == {17, 18}
Text  == {0, 4, 5, 6, 8, 10, 13}
Lists == {12, 15, 16}
Answers(g) == CASE g = "gu" -> Small [] g = "gul" -> Small \cup Long [] g = "gull" -> Small \cup Long \cup Wide [] g = "gs" -> Text [] g = "ga" -> Lists
Kept == Text \cup Lists                \* answers that are memory of the caller's

VARIABLES file,        \* what each file holds now: a delta, "junk" or "missing"
          handle,      \* 1..NH -> "null" or [d |-> delta, name |-> file it was read from, cells |-> item -> cell]
          answer,      \* 1..NR -> "none" or [d, tag, name, cell, spoilt]
          mem,         \* cell -> what it holds
          last         \* the call just made and what it returned
vars == <<file, handle, answer, mem, last>>

NoH == [live |-> FALSE, d |-> "", name |-> "", cell |-> 0]
NoA == [held |-> FALSE, d |-> "", tag |-> 0, name |-> "", cell |-> 0, spoilt |-> FALSE]
Used == DOMAIN mem
Free == (1..MaxCell) \ Used
Value(d, t, name) == IF t = 0 THEN <<"name", name>> ELSE <<d, ToString(t)>>
Drop(f, s) == [x \in DOMAIN f \ s |-> f[x]]

Init == file \in [Names -> Contents \cup {"junk", "missing"}] /\ handle = [h \in 1..NH |-> NoH] /\ answer = [r \in 1..NR |-> NoA] /\ mem = <<>> /\ last = [op |-> "start"]

ReadOutcome(f) == CASE file[f] = "missing" -> "IO" [] file[f] = "junk" -> "FORMAT" [] OTHER -> "OK"
\* in the model a handle has one cell, its items are told apart by their values
Read(h, f) ==
  /\ ~handle[h].live /\ Free # {}
  /\ LET rc == ReadOutcome(f) IN
     /\ last' = [op |-> "read", h |-> h, f |-> f, rc |-> rc]
     /\ IF rc = "OK" THEN LET c == CHOOSE c \in Free : \A x \in Free : c <= x
                          IN handle' = [handle EXCEPT ![h] = [live |-> TRUE, d |-> file[f], name |-> f, cell |-> c]] /\ mem' = mem @@ (c :> <<"handle", file[f], f>>)
        ELSE UNCHANGED <<handle, mem>>
  /\ UNCHANGED <<file, answer>>
ReadBad(nullh) == last' = [op |-> "readbad", nullh |-> nullh, rc |-> "ARGS"] /\ UNCHANGED <<file, handle, answer, mem>>
Get(h, g, t, r) ==
  LET ok == handle[h].live /\ t \in Answers(g)
  IN /\ IF ok /\ t \in Kept THEN ~answer[r].held /\ Free # {} ELSE TRUE
     /\ last' = [op |-> "get", h |-> h, g |-> g, t |-> t, r |-> IF ok /\ t \in Kept THEN r ELSE 0, rc |-> IF ok THEN "OK" ELSE "ARGS"]
     /\ IF ok /\ t \in Kept
        THEN LET c == CHOOSE c \in Free : \A x \in Free : c <= x
                 m == mem[handle[h].cell]
             IN /\ answer' = [answer EXCEPT ![r] = [held |-> TRUE, d |-> m[2], tag |-> t, name |-> m[3], cell |-> c, spoilt |-> FALSE]]
                /\ mem' = mem @@ (c :> Value(m[2], t, m[3]))
        ELSE UNCHANGED <<answer, mem>>
     /\ UNCHANGED <<file, handle>>
GetNowhere(h, g, t) == last' = [op |-> "getnull", h |-> h, g |-> g, t |-> t, rc |-> "ARGS"] /\ UNCHANGED <<file, handle, answer, mem>>
Show(r) == answer[r].held /\ last' = [op |-> "show", r |-> r] /\ UNCHANGED <<file, handle, answer, mem>>
Scribble(r) ==
  /\ answer[r].held /\ last' = [op |-> "scribble", r |-> r]
  /\ answer' = [answer EXCEPT ![r].spoilt = TRUE] /\ mem' = [mem EXCEPT ![answer[r].cell] = <<"spoilt">>]
  /\ UNCHANGED <<file, handle>>
GiveBack(r) ==
  /\ answer[r].held /\ last' = [op |-> "drop", r |-> r]
  /\ mem' = Drop(mem, {answer[r].cell}) /\ answer' = [answer EXCEPT ![r] = NoA]
  /\ UNCHANGED <<file, handle>>
Destroy(h) ==
  /\ last' = [op |-> "destroy", h |-> h, rc |-> IF ~handle[h].live THEN "ARGS" ELSE "OK"]
  /\ IF ~handle[h].live THEN UNCHANGED <<handle, mem>>
     ELSE handle' = [handle EXCEPT ![h] = NoH] /\ mem' = Drop(mem, {handle[h].cell})
  /\ UNCHANGED <<file, answer>>
\* the file changes after it was read
Replace(f, c) == file[f] # c /\ file' = [file EXCEPT ![f] = c] /\ last' = [op |-> "replace", f |-> f, c |-> c] /\ UNCHANGED <<handle, answer, mem>>

Next ==
  \/ \E h \in 1..NH, f \in Names : Read(h, f)
  \/ \E b \in BOOLEAN : ReadBad(b)
  \/ \E h \in 1..NH, g \in Getters, t \in Tags \cup BadTags, r \in 1..NR : Get(h, g, t, r)
  \/ \E h \in 1..NH, g \in Getters, t \in Tags : GetNowhere(h, g, t)
  \/ \E r \in 1..NR : Show(r) \/ Scribble(r) \/ GiveBack(r)
  \/ \E h \in 1..NH : Destroy(h)
  \/ \E f \in Names, c \in Contents \cup {"junk", "missing"} : Replace(f, c)
Spec == Init /\ [][Next]_vars
\* random walks that stay among interesting calls
One(S) == {RandomElement(IF last = last THEN S ELSE S)}     \* (mentions a variable: TLC would throw constants only once)
Walk ==
  \E k \in One(1..20), h \in One(1..NH), r \in One(1..NR), f \in One(Names), t \in One(Tags) :
     IF k <= 2 THEN IF handle[h].live THEN Destroy(h) ELSE Read(h, f)
     ELSE IF k = 3 THEN IF handle[h].live THEN Show(r) ELSE Destroy(h)
     ELSE IF k <= 13 THEN IF ~handle[h].live THEN Read(h, f) ELSE
                          IF answer[r].held /\ t \in Kept THEN IF k < 9 THEN GiveBack(r) ELSE Show(r)
                          ELSE \E g \in One({g \in Getters : t \in Answers(g)}) : Get(h, g, t, r)
     ELSE IF k = 14 THEN \E g \in One(Getters), u \in One(Tags \cup BadTags) : (IF handle[h].live THEN u \notin Answers(g) ELSE TRUE) /\ Get(h, g, u, r)
     ELSE IF k = 15 THEN \E g \in One(Getters) : GetNowhere(h, g, t)
     ELSE IF k = 16 THEN Scribble(r)
     ELSE IF k = 17 THEN Show(r)
     ELSE IF k = 18 THEN \E b \in One(BOOLEAN) : ReadBad(b)
     ELSE \E c \in One(Contents \cup {"junk", "missing"}) : Replace(f, c)
Step == \E i \in 1..6 : Walk       \* several throws, so that one of them can be made
Walks == Init /\ [][Step]_vars

---------------------------------------------------------------------------
Owners == {<<"h", h>> : h \in {x \in 1..NH : handle[x].live}} \cup {<<"a", r>> : r \in {x \in 1..NR : answer[x].held}}
CellOf(o) == IF o[1] = "h" THEN handle[o[2]].cell ELSE answer[o[2]].cell
\* no memory is shared, none is lost, none is used after it was given back
Apart == \A o, p \in Owners : o # p => CellOf(o) # CellOf(p)
Exact == {CellOf(o) : o \in Owners} = Used
\* what a handle answers is what was in the file when it was read, whatever callers do
Faithful == \A h \in 1..NH : handle[h].live => mem[handle[h].cell] = <<"handle", handle[h].d, handle[h].name>>
Untouched == \A r \in 1..NR : answer[r].held => mem[answer[r].cell] = IF answer[r].spoilt THEN <<"spoilt">> ELSE Value(answer[r].d, answer[r].tag, answer[r].name)
\* every item has exactly one kind of answer, numbers also wider ones
OneKind == /\ UNION {Answers(g) : g \in Getters} = Tags
           /\ \A x, y \in {Small \cup Long \cup Wide, Text, Lists} : x = y \/ x \cap y = {}
           /\ Answers("gu") \subseteq Answers("gul") /\ Answers("gul") \subseteq Answers("gull")
View == <<file, handle, answer, mem>>
Emit == PrintT(ToJson([n |-> TLCGet("level"), op |-> last, file |-> file]))
=============================================================================
