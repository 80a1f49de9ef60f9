---------------------------- MODULE ArchiveTrace ----------------------------
(* Standard deltas recorded from the library against Archive: what was used of  *)
(* the archive (sequence), the offset adjustments, and the source stream the    *)
(* harness rendered for executing the delta's copies.                           *)
EXTENDS Archive
Log == ndJsonDeserialize("trace.ndjson")
Sq == INSTANCE Sequence WITH MaxFiles <- 0, MaxNibbles <- 0, DecFiles <- 0, Mode <- "", inp <- 0, enc <- 0, dec <- 0
VARIABLE l
E == Log[l]
Set(s) == {s[k] : k \in DOMAIN s}
Ent(x) == [x EXCEPT !.flags = Set(@), !.verify = Set(@), !.color = Set(@)]
Complain(ok, what) == IF ok THEN TRUE ELSE PrintT(ToJson([line |-> l, expected |-> what]))
TInit == Init /\ l = 1
Decide(w) ==
  LET d == Sq!Decode(E.nibbles, E.count)
  IN /\ Complain(d.ok /\ d.files = w.seq, [sequence |-> w.seq, got |-> d])
     /\ Complain(E.nibbles = Sq!Padded(Sq!Encode(w.seq)), [nibbles |-> "canonical encoding"])
     /\ Complain(E.version >= 3 => E.adj = w.adj \/ (E.most > 0 /\ E.adj = Divided(w.adj, E.most)), [adjustments |-> w.adj, most |-> E.most])
     /\ Complain(E.version >= 3 => \A k \in DOMAIN w.pieces : Map(E.adj, w.pieces[k].at) = w.pieces[k].orig, "adjustments lead to the original archive")
     /\ Complain(E.pieces = w.pieces /\ E.len = StreamLen(w), [pieces |-> w.pieces, len |-> StreamLen(w)])
TNext == /\ l <= Len(Log) /\ l' = l + 1
         /\ IF E.e = "case" THEN TRUE ELSE Decide(Walk([k \in DOMAIN E.ents |-> Ent(E.ents[k])], E.colors))
         /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, vars>>
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
