----------------------------- MODULE DeltaTrace -----------------------------
(* Deltas given to the library as bytes, and what it made of them.             *)
EXTENDS DeltaFile
Log == ndJsonDeserialize("trace.ndjson")
VARIABLE l
E == Log[l]
Complain(ok, what) == IF ok THEN TRUE ELSE PrintT(ToJson([line |-> l, expected |-> what]))
TInit == l = 1 /\ val = <<>> /\ ty = "" /\ cut = 0
Refusals == {"FORMAT", "MEMORY", "OVERFLOW", "OTHER"}
\* a string ends at its first zero byte
CStr(b) == LET z == {k \in DOMAIN b : b[k] = 0} IN IF z = {} THEN b ELSE SubSeq(b, 1, (CHOOSE k \in z : \A j \in z : k <= j) - 1)
Inter(a, b) == [k \in 1..2 * Len(a) |-> IF k % 2 = 1 THEN a[(k + 1) \div 2] ELSE b[k \div 2]]
Report(s) == [k \in DOMAIN s |-> Report32(s[k])]
Get(v, n, d) == IF n \in DOMAIN v THEN v[n] ELSE d
Expected(v) ==
  [file |-> E.file, version |-> v["version"], type |-> IF E.type = "standard" THEN 0 ELSE 1, comp |-> E.comp, src |-> CStr(v["src"]), tgt |-> E.tgt, seq |-> v["seq"], md5 |-> v["md5"],
   tgtsize |-> Get(v, "tgtsize", <<0, 0>>), tgtcomp |-> IF v["version"] >= 2 THEN CompName(v["tgtcomp"][2] % 256) ELSE E.pkgcomp, param |-> Get(v, "param", <<>>),
   hdrlen |-> Get(v, "hdrlen", <<0, 0>>), adj |-> Inter(Get(v, "adja", <<>>), Report(Get(v, "adjb", <<>>))), lead |-> v["lead"], fmtoff |-> v["fmtoff"],
   ints |-> Inter(v["inta"], v["intb"]), exts |-> Inter(Report(v["exta"]), v["extb"]), extlen |-> Narrow(v["extlen"]), intlen |-> Narrow(v["intlen"])]
\* the outside of the rpm-only kind: letters drpm and DLT3, the target's name, the add block; then the compressed body
Outer(b) ==
  IF Len(b) < 16 \/ SubSeq(b, 1, 8) # <<100, 114, 112, 109, 68, 76, 84, 51>> THEN [ok |-> FALSE, at |-> 0, tgt |-> <<>>]
  ELSE LET n == Count(U32(b, 9)) IN
       IF n = Big \/ 12 + n + 4 > Len(b) THEN [ok |-> FALSE, at |-> 0, tgt |-> <<>>]
       ELSE LET m == Count(U32(b, 13 + n)) IN
            IF m = Big \/ 16 + n + m > Len(b) THEN [ok |-> FALSE, at |-> 0, tgt |-> <<>>]
            ELSE [ok |-> TRUE, at |-> 16 + n + m, tgt |-> CStr(SubSeq(b, 13, 12 + n))]
Sound == E.sound /\ (E.type = "rpmonly" => LET o == Outer(E.head) IN o.ok /\ o.at = E.at /\ o.tgt = E.tgt)
\* the outside is sound: the body decides
Decide(r) ==
  IF E.noise THEN Complain(E.rc = "OK" \/ E.hnull, "a handle only on success")
  ELSE IF E.loose THEN Complain(E.rc = "OK" => r.ok /\ E.got = Expected(r.v), "if anything, what the whole says")
  ELSE IF ~Sound THEN Complain(E.rc \in Refusals \cup {"IO"} /\ E.hnull, "refused, no handle")
  ELSE IF E.rc = "OK" THEN Complain(r.ok /\ E.got = Expected(r.v), IF r.ok THEN Expected(r.v) ELSE [refused |-> TRUE])
  ELSE Complain(E.hnull /\ E.rc \in Refusals /\ (~r.ok \/ r.odd), [ok |-> r.ok])
\* using it: what cannot be read cannot be checked or applied either
Use(r) == /\ Complain((~E.loose /\ ~E.noise /\ (~Sound \/ ~r.ok)) => E.applyrc \notin {"OK"}, "apply refuses it too")
          /\ Complain((~E.loose /\ ~E.noise /\ (~Sound \/ ~r.ok)) => E.checkrc \notin {"OK"}, "check refuses it too")
TNext == /\ l <= Len(Log) /\ l' = l + 1
         /\ IF E.e = "case" THEN TRUE
            ELSE IF E.e = "open" THEN Complain(E.hnull /\ E.rc = E.want /\ E.applyrc = E.want /\ E.checkrc = E.want, E.want)
            ELSE LET r == IF ~E.noise /\ (E.loose \/ Sound) THEN Parse(E.body, E.type) ELSE Bad IN Decide(r) /\ Use(r)
         /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, vars>>
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
