----------------------------- MODULE InteropTrace -----------------------------
(* Deltas and sequence files made by the library and by the reference tools,    *)
(* what is in them, and what either made of the other's.                        *)
EXTENDS Interop
F == INSTANCE DeltaFile WITH DigestLen <- 16, LeadMin <- 112, val <- 0, ty <- "", cut <- 0
Log == ndJsonDeserialize("trace.ndjson")
VARIABLE l
E == Log[l]
Complain(ok, what) == IF ok THEN TRUE ELSE PrintT(ToJson([line |-> l, expected |-> what]))
TInit == l = 1 /\ q = 0 /\ stage = "trace" /\ number = 0 /\ out = 0

Get(v, n, d) == IF n \in DOMAIN v THEN v[n] ELSE d
\* the items that follow from the two packages and the request, in the order of the layout
Fields(v) == [src |-> v["src"], seq |-> v["seq"], md5 |-> v["md5"], size |-> Get(v, "tgtsize", <<0, 0>>), comp |-> IF v["version"] >= 2 THEN v["tgtcomp"][1] * 65536 + v["tgtcomp"][2] ELSE -1,
              param |-> Get(v, "param", <<>>), hdrlen |-> Get(v, "hdrlen", <<0, 0>>), adja |-> Get(v, "adja", <<>>), adjb |-> Get(v, "adjb", <<>>), lead |-> v["lead"], fmtoff |-> v["fmtoff"], extlen |-> F!Narrow(v["extlen"])]
Layout == LET p == F!Parse(E.body, E.q.kind.type)
          IN /\ Complain(p.ok /\ ~p.odd, "follows the layout")
             /\ IF ~p.ok THEN TRUE
                ELSE /\ Complain(p.rest = 0, "nothing after the last item")
                     /\ Complain(p.v["version"] = E.q.kind.version, [version |-> E.q.kind.version])
                     /\ Complain(F!Write(p.v) = E.body, "written the one way there is")
                     /\ Complain(Fields(p.v) = [k \in DOMAIN Fields(p.v) |-> E.f[k]], Fields(p.v))
Facts(r) == LET v == r.kind.version IN
  /\ Complain(E.f["src"] = E.want["src"], [src |-> E.want["src"]])
  /\ Complain(E.f["tgt"] = E.want["tgt"], [tgt |-> E.want["tgt"]])
  /\ Complain(SubSeq(E.f["seq"], 1, Len(E.want["seq"])) = E.want["seq"], [seq |-> E.want["seq"]])
  /\ Complain(E.f["md5"] = E.want["md5"], [md5 |-> E.want["md5"]])
  /\ Complain(E.f["lead"] = E.want["lead"], [lead |-> "lead and signature of the target"])
  /\ Complain(E.f["fmtoff"] = E.want["fmtoff"], [fmtoff |-> E.want["fmtoff"]])
  /\ Complain(v >= 2 => E.f["size"] = E.want["size"] /\ E.f["param"] = <<>>, [size |-> E.want["size"], param |-> <<>>])
  /\ Complain(r.kind.type = "rpmonly" => E.f["hdrlen"] = E.want["hdrlen"], [hdrlen |-> E.want["hdrlen"]])
  /\ Complain(v >= 2 => Says(E.f["comp"]) = Says(C!Written(r)), [comp |-> C!Written(r)])
Made(r) ==
  IF E.by = "library" /\ C!Refused(r) THEN Complain(E.rc = "PROG", [rc |-> "PROG"])
  ELSE /\ Complain(E.by = "library" => E.rc = "OK", [rc |-> "OK"])
       /\ IF E.rc # "OK" THEN TRUE
          ELSE /\ Facts(r)
               /\ IF E.body = <<>> THEN TRUE ELSE Layout
               /\ Complain(E.by = "library" => E.f["comp"] = C!Written(r), [comp |-> C!Written(r)])
\* one request, both tools: the items agree, the number in what it says
Pair(r) == LET S == {"src", "tgt", "seq", "md5", "size", "param", "hdrlen", "adja", "adjb", "lead", "fmtoff", "extlen", "outer"}
           IN /\ \A k \in S : Complain(E.lib[k] = E.ref[k], [k |-> E.ref[k], item |-> k])
              /\ Complain(r.kind.version >= 2 => Says(E.lib["comp"]) = Says(E.ref["comp"]), [comp |-> E.ref["comp"]])
              /\ Complain(E.libseq = E.refseq, [sequence |-> E.refseq])
Used(r) == Complain(CanUse(E.by, r) => E.rc = "OK" /\ E.same, "the target, byte for byte")
\* checking a package against a sequence id: the right package and the whole id, or a refusal
Sequence == Complain(E.ok = (E.right /\ E.whole), [accepted |-> E.right /\ E.whole])
TNext == /\ l <= Len(Log) /\ l' = l + 1
         /\ CASE E.e = "case" -> TRUE
              [] E.e = "made" -> Made(E.q)
              [] E.e = "pair" -> Pair(E.q)
              [] E.e = "used" -> Used(E.q)
              [] E.e = "info" -> Complain(E.got = E.want, E.want)
              [] E.e = "seq"  -> Sequence
              [] OTHER -> Complain(FALSE, "an event")
         /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, vars>>
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
