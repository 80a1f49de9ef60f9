----------------------------- MODULE Compression -----------------------------
(* Where compression settings go: what is asked for a delta's body and add      *)
(* block, what the target's payload says about itself, what of that a delta of  *)
(* each version can record, and what comes out when the delta is applied.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Mode     \* "walk": the steps from request to rebuilt package; "emit": the requests there are

Methods == {"none", "gzip", "bzip2", "lzma", "xz", "lzip", "zstd"}
\* levels a caller may ask for: 0 stands for the library's choice
Levels == 0..9
Choice(m) == CASE m = "gzip" -> 9 [] m = "bzip2" -> 9 [] m = "lzma" -> 2 [] m = "xz" -> 3 [] m = "zstd" -> 19 [] OTHER -> 0
Effective(m, l) == IF m = "none" THEN 0 ELSE IF l = 0 THEN Choice(m) ELSE l
\* what a delta has a number for
Codes == [none |-> 0, gzip |-> 1, bzip2 |-> 2, lzma |-> 5, xz |-> 6, zstd |-> 7]
Recordable(m) == m \in DOMAIN Codes
Record(m, l) == Codes[m] + 256 * l
MethodOf(code) == CHOOSE m \in DOMAIN Codes : Codes[m] = code
Recorded(n) == [m |-> MethodOf(n % 256), l |-> n \div 256]

\* payloads a builder writes
TopLevel(m) == CASE m = "zstd" -> 22 [] m = "none" -> 0 [] OTHER -> 9
LowLevel(m) == CASE m \in {"none"} -> 0 [] OTHER -> 1
Payloads == {[m |-> m, l |-> l] : m \in Methods, l \in 0..22} \ {}
Payload(p) == p.l \in LowLevel(p.m)..TopLevel(p.m)
Targets == {p \in Payloads : Payload(p)}
\* levels of 0 a payload may have been written with: a delta cannot tell them from the library's choice (known finding)
Unfaithful == {[m |-> m, l |-> 0] : m \in {"gzip", "lzma", "xz", "zstd"}}

FromPackage == [m |-> "package", l |-> 0]
NoBlock == [m |-> "forbidden", l |-> 0]
Asked == {[m |-> m, l |-> l] : m \in Methods, l \in Levels}
Kinds == {[type |-> "standard", version |-> v] : v \in 1..3} \cup {[type |-> "rpmonly", version |-> 3]}
\* identity rpm-only deltas take the package as it is
Opaque(q) == q.self /\ q.kind.type = "rpmonly"

Body(q) == IF q.body # FromPackage THEN [m |-> q.body.m, l |-> Effective(q.body.m, q.body.l)]
           ELSE IF Opaque(q) THEN [m |-> "gzip", l |-> Choice("gzip")]
           ELSE [m |-> q.tgt.m, l |-> Effective(q.tgt.m, q.tgt.l)]
Add(q) == IF q.add = NoBlock \/ Opaque(q) THEN NoBlock ELSE [m |-> q.add.m, l |-> Effective(q.add.m, q.add.l)]
\* version 1 records nothing; its reader goes by the target's header
Records(q) == q.kind.version >= 2
Refused(q) == Records(q) /\ ~Opaque(q) /\ ~Recordable(q.tgt.m)
Written(q) == IF ~Records(q) THEN -1 ELSE IF Opaque(q) THEN 0 ELSE Record(q.tgt.m, q.tgt.l)
\* the compression apply goes about with
ApplyWith(q) == IF Opaque(q) THEN [m |-> "none", l |-> 0]
                ELSE LET r == IF Records(q) THEN Recorded(Written(q)) ELSE q.tgt IN [m |-> r.m, l |-> Effective(r.m, r.l)]
\* what the uncompressed stream is and what the target's bytes need
Needs(q) == IF Opaque(q) THEN [m |-> "none", l |-> 0] ELSE q.tgt

VARIABLES q, stage, made, rec, rebuilt
vars == <<q, stage, made, rec, rebuilt>>
Requests == {[tgt |-> t, body |-> b, add |-> a, kind |-> k, self |-> s] : t \in Targets, b \in {x \in Asked : x.l \in {0, 1, 9}} \cup {FromPackage}, a \in {x \in Asked : x.l \in {0, 5}} \cup {NoBlock}, k \in Kinds, s \in BOOLEAN}
Nothing == [m |-> "nothing", l |-> 0]
Init == /\ stage = (IF Mode = "emit" THEN "emit" ELSE "asked") /\ made = <<Nothing, Nothing>> /\ rec = -2 /\ rebuilt = Nothing
        /\ IF Mode = "emit" THEN q \in {<<"target", t>> : t \in Targets \cup Unfaithful} \cup {<<"body", b>> : b \in Asked \cup {FromPackage}} \cup {<<"add", a>> : a \in Asked \cup {NoBlock}} ELSE q \in Requests
Make == /\ stage = "asked"
        /\ IF Refused(q) THEN stage' = "refused" /\ UNCHANGED <<made, rec>>
           ELSE stage' = "made" /\ made' = <<Body(q), Add(q)>> /\ rec' = Written(q)
        /\ UNCHANGED <<q, rebuilt>>
Apply == /\ stage = "made" /\ stage' = "rebuilt"
         /\ rebuilt' = (IF rec >= 0 THEN LET r == Recorded(rec) IN [m |-> r.m, l |-> Effective(r.m, r.l)] ELSE ApplyWith(q))
         /\ UNCHANGED <<q, made, rec>>
Next == Make \/ Apply
Spec == Init /\ [][Next]_vars
\* method and level of the target come back; nothing is replaced silently
Reproduced == stage = "rebuilt" => rebuilt = Needs(q)
Honoured == stage = "made" => /\ q.body # FromPackage /\ q.body.l # 0 /\ q.body.m # "none" => made[1] = q.body
                              /\ q.add # NoBlock /\ q.add.l # 0 /\ q.add.m # "none" /\ ~Opaque(q) => made[2] = q.add
                              /\ q.body = FromPackage /\ ~Opaque(q) => made[1] = q.tgt
OnlyLzip == stage = "refused" <=> stage # "asked" /\ stage # "emit" /\ q.tgt.m = "lzip" /\ q.kind.version >= 2 /\ ~Opaque(q)
Emit == stage = "emit" => PrintT(ToJson(q))
=============================================================================
