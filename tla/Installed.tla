------------------------------ MODULE Installed ------------------------------
(* The installed system a standard delta is checked against and applied to:    *)
(* which packages are installed and what has become of their files on disk.    *)
(*                                                                             *)
(* A file of the source package is needed by the delta (a regular, non-empty   *)
(* file in its sequence) or not. Its state on disk is one of                   *)
(*   ok         as packaged                                                    *)
(*   touched    other mode, owner or times                                     *)
(*   edited     same size, other content                                       *)
(*   grown      the packaged content and something after it                    *)
(*   shrunk     only the first part of the content                             *)
(*   rewritten  other size, other content                                      *)
(*   gone       no such file                                                   *)
(*   dangling   a symbolic link to nothing                                     *)
(*   moved      a symbolic link to the file as packaged                        *)
(*   dir        a directory                                                    *)
(*   unreadable as packaged, but opening or reading it fails                   *)
(*   prelinked  larger, marked as changed by prelink, which can give the       *)
(*              packaged content back                                          *)
(*   misprelinked  so marked, but what prelink gives back is something else    *)
(* Undoing needs prelink itself, one of the packages that can be installed.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

FileState == {"ok", "touched", "edited", "grown", "shrunk", "rewritten", "gone", "dangling", "moved", "dir", "unreadable", "prelinked", "misprelinked"}
Marked(s) == s \in {"prelinked", "misprelinked"}

Provides(s, tool) == s \in {"ok", "touched", "grown", "moved"} \/ (tool /\ s = "prelinked")       \* recorded content can be read
SizeIs(s)    == s \in {"ok", "touched", "edited", "moved", "unreadable"}
\* what a file alone makes a full check or a size check say
FullOf(s, tool) == CASE Provides(s, tool) -> {} [] s \in {"gone", "dangling", "unreadable", "dir"} -> {"IO"} [] Marked(s) /\ ~tool -> {"OTHER"} [] OTHER -> {"MISMATCH"}
SizeOf(s, tool) == CASE SizeIs(s) \/ (tool /\ s = "prelinked") -> {} [] s \in {"gone", "dangling"} -> {"NOINSTALL"} [] s = "dir" -> {"IO", "MISMATCH"} [] Marked(s) /\ ~tool -> {"OTHER"} [] OTHER -> {"MISMATCH"}

\* st: state of each needed file; d: the installed packages
Verdict(Of(_, _), st, d) ==
  IF "src" \notin d THEN {"NOINSTALL"}
  ELSE LET all == UNION {Of(st[f], "prelink" \in d) : f \in DOMAIN st} IN IF all = {} THEN {"OK"} ELSE all
FullVerdict(st, d) == Verdict(FullOf, st, d)
SizeVerdict(st, d) == Verdict(SizeOf, st, d)
Errors == {"MEMORY", "ARGS", "IO", "FORMAT", "OTHER", "MISMATCH", "NOINSTALL", "PROG"}
\* The delta may use only parts of its files: with something amiss it can still
\* succeed (then with exactly the target), or fail with one of the errors.
ApplyVerdict(st, d) ==
  IF "src" \notin d THEN {"NOINSTALL"}
  ELSE IF \A f \in DOMAIN st : Provides(st[f], "prelink" \in d) THEN {"OK"}
  ELSE {"OK", "IO", "FORMAT", "MISMATCH"} \cup (IF "prelink" \notin d /\ \E f \in DOMAIN st : Marked(st[f]) THEN {"OTHER"} ELSE {})

CONSTANTS Needed, Unneeded,     \* files of the source package
          Versions,             \* packages that can be installed; "src" is the delta's source, "prelink" the tool
          Depth
ASSUME "src" \in Versions
VARIABLES db, fs, act, hist
vars == <<db, fs, act, hist>>
view == <<db, fs>>
Files == Needed \cup Unneeded
NeededFs == [f \in Needed |-> fs[f]]
Here == "src" \in db

Init == db = {"src"} /\ fs = [f \in Files |-> "ok"] /\ act = <<"init">> /\ hist = <<>>
Log(a) == act' = a /\ hist' = IF Depth = 0 THEN hist ELSE Append(hist, a)
\* installing puts the packaged files of that version in place; other versions have files of their own
Install(v) == v \notin db /\ db' = db \cup {v} /\ fs' = (IF v = "src" THEN [f \in Files |-> "ok"] ELSE fs) /\ Log(<<"install", v>>)
Erase(v) == v \in db /\ db' = db \ {v} /\ fs' = (IF v = "src" THEN [f \in Files |-> "gone"] ELSE fs) /\ Log(<<"erase", v>>)
Upgrade(v) == Here /\ v # "prelink" /\ v \notin db /\ db' = (db \ {"src"}) \cup {v} /\ fs' = [f \in Files |-> "gone"] /\ Log(<<"upgrade", v>>)
Change(f, s) == fs[f] # s /\ fs' = [fs EXCEPT ![f] = s] /\ UNCHANGED db /\ Log(<<"change", f, s>>)
CheckFull == Log(<<"full", FullVerdict(NeededFs, db)>>) /\ UNCHANGED <<db, fs>>
CheckSizes == Log(<<"sizes", SizeVerdict(NeededFs, db)>>) /\ UNCHANGED <<db, fs>>
Apply == Log(<<"apply", ApplyVerdict(NeededFs, db)>>) /\ UNCHANGED <<db, fs>>
Next == \/ \E v \in Versions : Install(v) \/ Erase(v) \/ Upgrade(v)
        \/ \E f \in Files, s \in FileState : Change(f, s)
        \/ CheckFull \/ CheckSizes \/ Apply
Spec == Init /\ [][Next]_vars

Bound == Len(hist) < Depth
\* a full check that succeeds promises that applying does
Predicts == FullVerdict(NeededFs, db) = {"OK"} => ApplyVerdict(NeededFs, db) = {"OK"}
\* exactly when every needed file provides its content / has its size
Exact == /\ ("OK" \in FullVerdict(NeededFs, db)) <=> (Here /\ \A f \in Needed : Provides(fs[f], "prelink" \in db))
         /\ ("OK" \in SizeVerdict(NeededFs, db)) <=> (Here /\ \A f \in Needed : (SizeIs(fs[f]) \/ (Provides(fs[f], "prelink" \in db) /\ fs[f] = "prelinked")))
         /\ ~ ({"OK"} \subseteq FullVerdict(NeededFs, db) /\ FullVerdict(NeededFs, db) # {"OK"})
\* content as packaged passes both checks whatever else is the case
Clean == Here /\ (\A f \in Needed : fs[f] \in {"ok", "touched", "moved"}) => FullVerdict(NeededFs, db) = {"OK"} /\ SizeVerdict(NeededFs, db) = {"OK"}
\* checks change nothing; unneeded files and other versions influence nothing
Observing == [][act'[1] \in {"full", "sizes", "apply"} => UNCHANGED <<db, fs>>]_vars
Unneeded_ == [][(act'[1] = "change" /\ act'[2] \in Unneeded) =>
                   /\ FullVerdict(NeededFs', db') = FullVerdict(NeededFs, db)
                   /\ SizeVerdict(NeededFs', db') = SizeVerdict(NeededFs, db)
                   /\ ApplyVerdict(NeededFs', db') = ApplyVerdict(NeededFs, db)]_vars
=============================================================================
