---------------------------- MODULE PatchesTrace ----------------------------
(* Standard deltas made with a print and a patch against Patches and Archive:   *)
(* files left out are as if the package had no metadata for them.               *)
EXTENDS Archive
P == INSTANCE Patches WITH Names <- {}, MaxList <- 0, disk <- 0, print <- 0, patch <- 0, cls <- 0
Sq == INSTANCE Sequence WITH MaxFiles <- 0, MaxNibbles <- 0, DecFiles <- 0, Mode <- "", inp <- 0, enc <- 0, dec <- 0
Log == ndJsonDeserialize("trace.ndjson")
VARIABLE l
E == Log[l]
Set(s) == {s[k] : k \in DOMAIN s}
Out(x) == x.kind = "reg" /\ P!LeftOut(E.print.list, E.patch.list, x.name, x.sum)
Ent(x) == [x EXCEPT !.flags = Set(@), !.verify = Set(@), !.color = Set(@), !.idx = IF Out(x) THEN -1 ELSE @]
Complain(ok, what) == IF ok THEN TRUE ELSE PrintT(ToJson([line |-> l, expected |-> what]))
TInit == Init /\ l = 1
Right == P!Answer(E.print, E.patch, E.src)
Decide(w) ==
  LET d == Sq!Decode(E.nibbles, E.count)
  IN /\ Complain(d.ok /\ d.files = w.seq, [sequence |-> w.seq, got |-> d])
     /\ Complain(E.version >= 3 => E.adj = w.adj, [adjustments |-> w.adj])
     /\ Complain(E.len = StreamLen(w), [len |-> StreamLen(w)])
Make == /\ Complain(IF Right = "OK" THEN E.rc = "OK" ELSE IF E.print.state = "damaged" \/ E.patch.state = "damaged" THEN TRUE ELSE E.rc = Right, Right)
        /\ IF E.rc = "OK" THEN Decide(Walk([k \in DOMAIN E.ents |-> Ent(E.ents[k])], E.colors)) ELSE TRUE
\* a system whose files are the packaged ones but for those left out and those the delta has no use for
Use == LET free == \A k \in DOMAIN E.changed : \A j \in DOMAIN E.ents : E.ents[j].name = E.changed[k] => ~Usable(Ent(E.ents[j]), E.colors)
       IN IF free THEN Complain(E.rc = "OK" /\ E.exact, "OK")
          ELSE IF E.op = "apply" THEN Complain(E.rc = "OK" => E.exact, "exact or refused")
          ELSE Complain(E.rc \in {"MISMATCH", "IO"}, "MISMATCH")
TNext == /\ l <= Len(Log) /\ l' = l + 1
         /\ IF E.e = "case" THEN TRUE ELSE IF E.e = "make" THEN Make ELSE IF E.e = "any" THEN TRUE ELSE Use
         /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, vars>>
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
