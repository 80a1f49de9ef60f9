------------------------------ MODULE DeltaFile ------------------------------
(* The layout of a delta, as published, and what reading one reports. A layout *)
(* is a list of items; the writer lays values down one after the other, the     *)
(* reader takes them off again. Bytes are numbers 0..255; 32-bit numbers are    *)
(* pairs <<high, low>> of 16-bit halves, 64-bit numbers four of them.           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS DigestLen,      \* 16
          LeadMin         \* least length of lead and signature: 112

---------------------------------------------------------------------------
(* Layout of the (uncompressed) body                                           *)
Num(n)       == [n |-> n, k |-> "num", of |-> ""]
Wide(n)      == [n |-> n, k |-> "wide", of |-> ""]
Blob(n, of)  == [n |-> n, k |-> "blob", of |-> of]          \* as many bytes as the item `of` says
Digest(n)    == [n |-> n, k |-> "digest", of |-> ""]
List(n, of)  == [n |-> n, k |-> "list", of |-> of]
Signed(n,of) == [n |-> n, k |-> "signed", of |-> of]        \* sign bit and magnitude
Len64(v, n)  == IF v >= 3 THEN Wide(n) ELSE Num(n)

Layout(v) ==
  <<Num("srclen"), Blob("src", "srclen"), Num("seqlen"), Blob("seq", "seqlen"), Digest("md5")>>
  \o (IF v >= 2 THEN <<Num("tgtsize"), Num("tgtcomp"), Num("paramlen"), Blob("param", "paramlen")>> ELSE <<>>)
  \o (IF v >= 3 THEN <<Num("hdrlen"), Num("adjcount"), List("adja", "adjcount"), Signed("adjb", "adjcount")>> ELSE <<>>)
  \o <<Num("leadlen"), Blob("lead", "leadlen"), Num("fmtoff"), Num("intcount"), Num("extcount"), List("inta", "intcount"), List("intb", "intcount"),
       Signed("exta", "extcount"), List("extb", "extcount"), Len64(v, "extlen"), Num("addlen"), Blob("add", "addlen"), Len64(v, "intlen"), Blob("data", "intlen")>>

---------------------------------------------------------------------------
(* Numbers                                                                     *)
Big == 1000000000                          \* more than any file here has
Nat32(n) == IF n[1] < 15000 THEN n[1] * 65536 + n[2] ELSE Big
Count(n) == IF Len(n) = 2 THEN Nat32(n) ELSE IF n[1] = 0 /\ n[2] = 0 THEN Nat32(<<n[3], n[4]>>) ELSE Big
Narrow(n) == IF Len(n) = 4 THEN n ELSE <<0, 0>> \o n
\* exact sums and comparisons: <<high, low>> with high any integer (two's complement when negative)
Norm(h, l) == IF l < 0 THEN <<h - 1, l + 65536>> ELSE <<h + (l \div 65536), l % 65536>>
Plus(a, b) == Norm(a[1] + b[1], a[2] + b[2])
Neg(a) == Norm(-a[1], -a[2])
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
IsNeg(a) == a[1] < 0
\* an upper limit out of four halves (beyond 2^46 all are alike)
Limit(n) == IF n[1] > 0 \/ n[2] >= 16384 THEN <<1073741824, 0>> ELSE <<n[2] * 65536 + n[3], n[4]>>
SignMag(n) == IF n[1] >= 32768 THEN Neg(<<n[1] - 32768, n[2]>>) ELSE n
Report32(a) == IF IsNeg(a) THEN <<a[1] + 65536, a[2]>> ELSE a         \* as an unsigned 32-bit number
ToSignMag(a) == IF IsNeg(a) THEN LET m == Neg(a) IN <<m[1] + 32768, m[2]>> ELSE a

---------------------------------------------------------------------------
(* Reading                                                                     *)
U16(b, p) == b[p] * 256 + b[p+1]
U32(b, p) == <<U16(b, p), U16(b, p + 2)>>
Size(i, v) == CASE i.k = "num" -> 4 [] i.k = "wide" -> 8 [] i.k = "digest" -> DigestLen
                [] i.k = "blob" -> Count(v[i.of]) [] OTHER -> IF Count(v[i.of]) >= 100000000 THEN Big ELSE 4 * Count(v[i.of])
Take(b, p, i, v) ==
  LET n == Size(i, v)
  IN CASE i.k = "num"  -> U32(b, p)
       [] i.k = "wide" -> <<U16(b, p), U16(b, p + 2), U16(b, p + 4), U16(b, p + 6)>>
       [] i.k \in {"blob", "digest"} -> SubSeq(b, p, p + n - 1)
       [] i.k = "list" -> [k \in 1..(n \div 4) |-> U32(b, p + 4 * (k - 1))]
       [] OTHER -> [k \in 1..(n \div 4) |-> SignMag(U32(b, p + 4 * (k - 1)))]
ReadItem(s, b, i) ==
  IF s.bad THEN s
  ELSE LET n == Size(i, s.v)
       IN IF n = Big \/ s.p + n - 1 > Len(b) THEN [s EXCEPT !.bad = TRUE]
          ELSE [s EXCEPT !.v = @ @@ (i.n :> Take(b, s.p, i, s.v)), !.p = @ + n]
ReadAll(b, v) == FoldLeft(LAMBDA s, i : ReadItem(s, b, i), [p |-> 5, bad |-> FALSE, v |-> ("version" :> v)], Layout(v))

CompName(c) == CASE c = 0 -> 0 [] c = 1 -> 1 [] c = 2 -> 2 [] c = 3 -> 1 [] c = 4 -> 2 [] c = 5 -> 3 [] c = 6 -> 4 [] c = 7 -> 6 [] OTHER -> 99
\* copies stay within what they refer to: internal ones within the internal data, external ones, added up, within the source
ExtOK(v) ==
  LET lim == Limit(Narrow(v["extlen"]))
      r == FoldLeft(LAMBDA a, k :
             IF ~a.ok THEN a
             ELSE LET o == Plus(a.at, v["exta"][k])
                      e == Plus(o, v["extb"][k])
                  IN [at |-> e, ok |-> ~IsNeg(o) /\ ~Less(lim, o) /\ ~Less(lim, e)],
             [at |-> <<0, 0>>, ok |-> TRUE], [k \in DOMAIN v["exta"] |-> k])
  IN r.ok
Sum(s) == FoldLeft(Plus, <<0, 0>>, s)
IntOK(v) == ~Less(Limit(Narrow(v["intlen"])), Sum(v["intb"]))
Valid(v, type) ==
  /\ Count(v["seqlen"]) >= DigestLen
  /\ type = "rpmonly" => v["version"] = 3 /\ Count(v["seqlen"]) = DigestLen /\ v["hdrlen"] # <<0, 0>> /\ v["addlen"] = <<0, 0>>
  /\ v["version"] >= 2 => CompName(v["tgtcomp"][2] % 256) # 99
  /\ Count(v["leadlen"]) >= LeadMin
  /\ IntOK(v) /\ ExtOK(v)
\* things the layout gives no meaning to: reading may refuse them
Odd(v) ==
  \/ v["src"] = <<>> \/ v["src"][Len(v["src"])] # 0 \/ \E k \in 1..Len(v["src"]) - 1 : v["src"][k] = 0
  \/ v["version"] >= 2 /\ (v["tgtcomp"][1] # 0 \/ v["tgtcomp"][2] \div 256 > 22)
  \/ \E k \in DOMAIN v["exta"] : v["extb"][k] = <<0, 0>>
  \/ LET t == Sum(v["inta"]) IN t # <<Len(v["exta"]) \div 65536, Len(v["exta"]) % 65536>>
  \/ Sum(v["intb"]) # <<Limit(Narrow(v["intlen"]))[1], Limit(Narrow(v["intlen"]))[2]>>
\* bytes 68, 76, 84: the letters DLT
Version(b) == IF Len(b) < 4 \/ SubSeq(b, 1, 3) # <<68, 76, 84>> THEN 0 ELSE IF b[4] \in 49..51 THEN b[4] - 48 ELSE 0
Bad == [ok |-> FALSE, odd |-> FALSE, v |-> <<>>, rest |-> 0]
Parse(b, type) ==
  LET ver == Version(b) IN
  IF ver = 0 THEN Bad
  ELSE LET s == ReadAll(b, ver) IN
       IF s.bad THEN Bad
       ELSE IF ~Valid(s.v, type) THEN Bad
       ELSE [ok |-> TRUE, odd |-> Odd(s.v), v |-> s.v, rest |-> Len(b) - s.p + 1]

---------------------------------------------------------------------------
(* Writing                                                                     *)
B16(n) == <<n \div 256, n % 256>>
B32(n) == B16(n[1]) \o B16(n[2])
Put(i, x) == CASE i.k = "num" -> B32(x) [] i.k = "wide" -> B32(<<x[1], x[2]>>) \o B32(<<x[3], x[4]>>) [] i.k \in {"blob", "digest"} -> x
               [] i.k = "list" -> FoldLeft(LAMBDA a, y : a \o B32(y), <<>>, x)
               [] OTHER -> FoldLeft(LAMBDA a, y : a \o B32(ToSignMag(y)), <<>>, x)
Write(v) == <<68, 76, 84, 48 + v["version"]>> \o FoldLeft(LAMBDA a, i : a \o Put(i, v[i.n]), <<>>, Layout(v["version"]))

---------------------------------------------------------------------------
(* Model: small deltas written and read back, whole and cut                    *)
S32(n) == <<0, n>>
Vals(ver, ty, src, sq, par, adj, ints, exts, data, add, extlen) ==
  LET base == ("version" :> ver) @@ ("srclen" :> S32(Len(src))) @@ ("src" :> src) @@ ("seqlen" :> S32(Len(sq))) @@ ("seq" :> sq) @@ ("md5" :> [k \in 1..DigestLen |-> k])
              @@ ("leadlen" :> S32(LeadMin)) @@ ("lead" :> [k \in 1..LeadMin |-> (200 + k) % 256]) @@ ("fmtoff" :> <<65535, 65535>>)
              @@ ("intcount" :> S32(Len(ints))) @@ ("extcount" :> S32(Len(exts)))
              @@ ("inta" :> [k \in DOMAIN ints |-> ints[k][1]]) @@ ("intb" :> [k \in DOMAIN ints |-> ints[k][2]])
              @@ ("exta" :> [k \in DOMAIN exts |-> exts[k][1]]) @@ ("extb" :> [k \in DOMAIN exts |-> exts[k][2]])
              @@ ("extlen" :> IF ver >= 3 THEN <<0, 0>> \o extlen ELSE extlen) @@ ("addlen" :> S32(Len(add))) @@ ("add" :> add)
              @@ ("intlen" :> IF ver >= 3 THEN <<0, 0>> \o S32(Len(data)) ELSE S32(Len(data))) @@ ("data" :> data)
      two  == ("tgtsize" :> <<65535, 1>>) @@ ("tgtcomp" :> <<0, 9 * 256 + 1>>) @@ ("paramlen" :> S32(Len(par))) @@ ("param" :> par)
      three == ("hdrlen" :> <<0, 7>>) @@ ("adjcount" :> S32(Len(adj))) @@ ("adja" :> [k \in DOMAIN adj |-> adj[k][1]]) @@ ("adjb" :> [k \in DOMAIN adj |-> adj[k][2]])
  IN base @@ (IF ver >= 2 THEN two ELSE <<>>) @@ (IF ver >= 3 THEN three ELSE <<>>)

VARIABLES val, ty, cut
vars == <<val, ty, cut>>
SmallNums == {<<0, 0>>, <<0, 3>>, <<32767, 65535>>}
SmallSigned == {<<0, 0>>, <<0, 5>>, Neg(<<0, 4>>), Neg(<<32767, 65535>>), <<32767, 65535>>}
Init ==
  /\ ty \in {"standard", "rpmonly"} /\ cut = 0
  /\ \E ver \in IF ty = "rpmonly" THEN {3} ELSE 1..3 :
     \E src \in {<<97, 0>>, <<97, 98, 45, 0>>} :
     \E sq \in {[k \in 1..DigestLen |-> 255]} \cup (IF ty = "standard" THEN {[k \in 1..DigestLen + 2 |-> 16]} ELSE {}) :
     \E par \in {<<>>, <<1, 2, 3>>} :
     \E adj \in {<<>>, <<<<<<0, 3>>, Neg(<<32767, 65535>>)>>, <<<<65535, 65535>>, <<0, 1>>>>>>} :
     \E exts \in {<<>>, <<<<<<0, 5>>, <<0, 3>>>>>>, <<<<<<0, 9>>, <<0, 1>>>>, <<Neg(<<0, 8>>), <<0, 6>>>>>>} :
     \E data \in {<<>>, <<7, 7, 7>>} :
     \E add \in IF ty = "rpmonly" THEN {<<>>} ELSE {<<>>, <<66, 90>>} :
       val = Vals(ver, ty, src, sq, par, adj, IF data = <<>> /\ exts = <<>> THEN <<>> ELSE <<<<S32(Len(exts)), S32(Len(data))>>>>, exts, data, add, <<0, 10>>)
Cut == cut < Len(Write(val)) /\ cut' = cut + 1 /\ UNCHANGED <<val, ty>>
Spec == Init /\ [][Cut]_vars
\* what was written is what is read
ReadsBack == cut = 0 => LET r == Parse(Write(val), ty) IN r.ok /\ ~r.odd /\ r.v = val /\ r.rest = 0
\* nothing short of the whole is accepted
CutRefused == cut > 0 => ~Parse(SubSeq(Write(val), 1, Len(Write(val)) - cut), ty).ok
\* what follows is not looked at
ExtraIgnored == cut = 0 => LET r == Parse(Write(val) \o <<1, 2>>, ty) IN r.ok /\ r.v = val
\* the written bytes, for replay
Emit == cut = 0 /\ PrintT(ToJson([type |-> ty, version |-> val["version"], body |-> Write(val)]))
=============================================================================
