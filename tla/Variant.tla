------------------------------- MODULE Variant -------------------------------
(* Packages one might mistake for the source of a delta: which part of the     *)
(* identity differs and which part of the file metadata. The digest over       *)
(* header and payload (sig) follows from the content unless it is removed or   *)
(* copied from the source.                                                     *)
EXTENDS Integers, Sequences, TLC, Json, World
VARIABLE v
Nevr == {"same", "name", "nameprefix", "namelonger", "version", "versionlonger", "release", "releaselonger", "epoch", "epochadded", "epochgone", "shifted"}
Meta == {"same", "content", "mode", "size", "linkto", "rdev", "filename", "kind", "fewer", "more", "none", "twin",   \* covered by a sequence digest
         "mtime", "owner", "flags", "verify", "summary", "arch", "order", "recompressed", "unused", "device"}                \* not covered
Covered == {"content", "mode", "size", "linkto", "rdev", "filename", "kind", "fewer", "more", "none", "twin"}
\* twin: other content, but both sequence digests start with a zero byte
\* near: a signature digest that differs from the source's in one byte, or only
\* after a zero byte
Sig  == {"auto", "none", "forged", "resigned", "near"}
Variants == {x \in [nevr : Nevr, meta : Meta, sig : Sig] :
               /\ x.sig = "forged" => x.meta = "same" /\ x.nevr # "same"
               /\ x.sig \in {"resigned", "near"} => x.meta = "same" /\ x.nevr = "same"
               /\ x.sig = "none" => x.meta \in {"same", "content"}}
\* The same as the source as far as a delta of a type can and must tell
Same(x, type) == /\ x.nevr = "same"
                 /\ IF type = "rpmonly" THEN x.sig \in {"forged", "resigned"} \/ (x.sig = "auto" /\ x.meta = "same")
                    ELSE x.meta \notin Covered
\* ... and World agrees: abstract package of a variant
SrcPkg == [id |-> "src", nevr |-> "same", sig |-> "s", meta |-> "m", data |-> "d", nfiles |-> 6, source |-> FALSE]
PkgOfV(x) == [id |-> "v", nevr |-> x.nevr,
              sig |-> IF x.sig = "none" THEN "none" ELSE IF x.sig \in {"forged", "resigned"} \/ (x.sig # "near" /\ x.meta = "same" /\ x.nevr = "same") THEN "s" ELSE "other",
              meta |-> IF x.meta \in Covered THEN x.meta ELSE "m", data |-> IF x.meta = "order" THEN "reordered" ELSE "d", nfiles |-> IF x.meta \in {"fewer", "none"} THEN 2 ELSE 6, source |-> FALSE]
VInit == v \in Variants /\ Init
VNext == UNCHANGED <<v, vars>>
VSpec == VInit /\ [][VNext]_<<v, vars>>
Refused == \A type \in {"standard", "rpmonly"} :
   LET d == [type |-> type, version |-> 3, src |-> SrcPkg, tgt |-> SrcPkg, self |-> FALSE]
       a == ApplyVerdict(d, "file", PkgOfV(v)) c == CheckSeqVerdict(d, PkgOfV(v)) i == ApplyInstalledVerdict(d, {PkgOfV(v)}) k == CheckVerdict(d, {PkgOfV(v)}) IN
   /\ ("OK" \in a) = Same(v, type) /\ a \subseteq {"OK", "MISMATCH", "FORMAT"} /\ ("OK" \in a /\ v.meta # "order" => a = {"OK"})
   /\ ("OK" \in c) = Same(v, type)
   /\ type = "rpmonly" => i = {"ARGS"} /\ k = IF v.nevr = "same" THEN {"OK"} ELSE {"NOINSTALL"}
   /\ type = "standard" => /\ ("OK" \in i) = Same(v, type) /\ (v.nevr # "same" => i = {"NOINSTALL"}) /\ k = i
Emit == PrintT(ToJson(v))
=============================================================================
