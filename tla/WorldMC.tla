------------------------------- MODULE WorldMC -------------------------------
(* World over a handful of packages: a and its successor b, a lookalike of a   *)
(* with other metadata (a2), a rebuilt one with the same metadata but another  *)
(* digest (a3), an unsigned one (a4), a source package and an odd one (o).        *)
EXTENDS World, Json
P(id, nevr, sig, meta, data, n, s) == [id |-> id, nevr |-> nevr, sig |-> sig, meta |-> meta, data |-> data, nfiles |-> n, source |-> s, odd |-> id = "o"]
MCPkgs == [a  |-> P("a", "p-1", "sa", "ma", "da", 3, FALSE),  b  |-> P("b", "p-2", "sb", "mb", "db", 3, FALSE),
           a2 |-> P("a2", "p-1", "sa2", "ma2", "da2", 2, FALSE), a3 |-> P("a3", "p-1", "sa3", "ma", "da", 3, FALSE),
           a4 |-> P("a4", "p-1", "none", "ma", "da", 3, FALSE), s |-> P("s", "s-1", "ss", "ms", "ds", 1, TRUE),
           o  |-> P("o", "p-1", "so", "mo", "do", 3, FALSE)]
MCView == <<slots, db, out, env, act>>
\* only the act of the last step matters for the state predicates, the rest is history-free
Observers == [][act'[1] \in {"check", "checkseq", "read"} => UNCHANGED <<slots, db, out, env>>]_vars
\* C04: nothing is applied from an installed package of another identity, never for rpm-only or source packages
InstalledOnlySource == act[1] = "applydb" /\ "OK" \in act[3] =>
   LET d == slots[act[2]] IN d.type = "standard" /\ ~d.tgt.source /\ \E p \in db : Pkgs[p].nevr = d.src.nevr /\ Pkgs[p].meta = d.src.meta
NotInstalled == act[1] \in {"applydb", "check"} /\ slots[act[2]].type = "standard" /\ ~slots[act[2]].tgt.source =>
   ((\A p \in db : Pkgs[p].nevr # slots[act[2]].src.nevr) <=> (act[Len(act)] = {"NOINSTALL"}))
\* a check of a standard delta predicts the application
Predicts == \A s \in 1..NSlots : LET D == {Pkgs[p] : p \in db} IN
   slots[s].type = "standard" /\ ~slots[s].tgt.source /\ CheckVerdict(slots[s], D) = {"OK"} => ApplyInstalledVerdict(slots[s], D) = {"OK"}
=============================================================================
