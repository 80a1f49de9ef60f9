------------------------------- MODULE Interop -------------------------------
(* Two tools for one format: the library and the reference tools               *)
(* (makedeltarpm, applydeltarpm). Either makes a delta for a request, either   *)
(* takes it up. The library refuses a request only where a delta has no way of *)
(* saying it; the reference tools know fewer compressions than the format has  *)
(* numbers for, and rewrite payloads in fewer ways.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
C == INSTANCE Compression WITH Mode <- "none", q <- 0, stage <- "", made <- 0, rec <- 0, rebuilt <- 0

Tools == {"library", "reference"}
---------------------------------------------------------------------------
(* What the reference tools can do                                             *)
\* they read streams that need no more than a moderate amount of memory, and know no lzip
Moderate(m, l) == m # "lzip" /\ (m \in {"lzma", "xz"} => C!Effective(m, l) <= 7)
ReadsAdd(a) == a = C!NoBlock \/ a.m = "bzip2" \/ (a.m = "gzip" /\ C!Effective(a.m, a.l) \in 2..8)
Reads(q) == Moderate(C!Body(q).m, C!Body(q).l) /\ ReadsAdd(C!Add(q))
\* without a recorded number they write a payload the one way they have for its method
Plain(m, l) == \/ m \in {"gzip", "bzip2"} /\ l = 9
               \/ m = "lzma" /\ l = 2
Rewrites(q) == C!Opaque(q) \/ (Moderate(q.tgt.m, q.tgt.l) /\ (q.kind.version = 1 => Plain(q.tgt.m, q.tgt.l)))
\* package payloads they read, and the body they write when told nothing
Makes(q) == /\ Moderate(q.tgt.m, q.tgt.l)
            /\ q.body = C!FromPackage => (q.tgt.m = "gzip" => q.tgt.l \in {8, 9})
            /\ q.body.m \in {"package", "gzip", "bzip2", "lzma", "xz", "zstd"}
            /\ q.body.m = "zstd" => q.body.l = 0
            /\ q.add.m \in {"forbidden", "bzip2"}
\* the number they record: no level where it is the one they would use anyway
RefLevel(t) == IF t.m \in {"gzip", "bzip2"} /\ t.l = 9 THEN 0 ELSE t.l
RefWritten(q) == IF ~C!Records(q) THEN -1 ELSE IF C!Opaque(q) THEN 0 ELSE C!Record(q.tgt.m, RefLevel(q.tgt))

---------------------------------------------------------------------------
\* what a delta made by a tool says about its target's compression
Number(by, q) == IF by = "library" THEN C!Written(q) ELSE RefWritten(q)
\* (gzip and bzip2 have a second number each, for other programs' ways of writing them)
Main(n) == CASE n % 256 = 3 -> n - 2 [] n % 256 = 4 -> n - 2 [] OTHER -> n
Says(n) == LET r == C!Recorded(Main(n)) IN [m |-> r.m, l |-> C!Effective(r.m, r.l)]
CanMake(by, q) == IF by = "library" THEN ~C!Refused(q) ELSE Makes(q)
\* may `by` be expected to rebuild the target of q from a delta the other tool (or itself) made
CanUse(by, q) == IF by = "library" THEN TRUE ELSE Reads(q) /\ Rewrites(q)
\* what comes out
Rebuild(by, q, n) == IF C!Opaque(q) THEN [m |-> "none", l |-> 0]
                     ELSE IF n >= 0 THEN Says(n)
                     \* version 1: the library goes by the target's header, the reference tool by the method alone
                     ELSE IF by = "library" THEN q.tgt ELSE [m |-> q.tgt.m, l |-> CHOOSE l \in 1..9 : Plain(q.tgt.m, l)]

VARIABLES q, stage, number, out
vars == <<q, stage, number, out>>
Nothing == [m |-> "nothing", l |-> 0]
Requests == {[tgt |-> t, body |-> b, add |-> a, kind |-> k, self |-> s] :
              t \in C!Targets, b \in {x \in C!Asked : x.l \in {0, 9}} \cup {C!FromPackage}, a \in {x \in C!Asked : x.l \in {0, 5}} \cup {C!NoBlock}, k \in C!Kinds, s \in BOOLEAN}
Init == q \in Requests /\ stage = "asked" /\ number = -2 /\ out = Nothing
Make(by) == /\ stage = "asked" /\ CanMake(by, q)
            /\ stage' = by /\ number' = Number(by, q) /\ UNCHANGED <<q, out>>
Use(by)  == /\ stage \in Tools /\ CanUse(by, q)
            /\ out' = Rebuild(by, q, number) /\ stage' = "used" /\ UNCHANGED <<q, number>>
Next == \E by \in Tools : Make(by) \/ Use(by)
Spec == Init /\ [][Next]_vars
\* whoever made it and whoever uses it: the target comes out
Interchange == stage = "used" => out = C!Needs(q)
\* the two say the same thing
Agree == CanMake("library", q) /\ CanMake("reference", q) /\ C!Records(q) => Says(Number("library", q)) = Says(Number("reference", q))
\* what the reference makes, the library could have made, except for the one method without a number
Wider == CanMake("reference", q) => CanMake("library", q)
\* the ways a caller of the library gets by default are within the reference's reach, except for heavy streams
Default == q.body = C!FromPackage /\ q.add = [m |-> "bzip2", l |-> 0] /\ Moderate(q.tgt.m, q.tgt.l) => Reads(q)
=============================================================================
