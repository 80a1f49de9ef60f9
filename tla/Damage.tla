------------------------------- MODULE Damage -------------------------------
(* Applying a delta when something has happened to its inputs. The inputs are  *)
(* the delta, the old package file and the installed files; a damage changes   *)
(* a region of one of them in some way. What a reconstruction makes of damaged *)
(* inputs is left open (any bytes can come out); the digest decides. A delta   *)
(* may come without one (all zeros): then header and payload are compared with *)
(* the digest in the target's signature, which does not cover lead and         *)
(* signature themselves.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT MaxDamage
\* self, identity: made from one package alone, with and without the installed files in mind
Types    == {[type |-> "standard", version |-> v] : v \in 1..3} \cup {[type |-> t, version |-> 3] : t \in {"rpmonly", "self", "identity"}}
Digests  == {"full", "none"}
\* regions of the delta file as stored, and the fields of its uncompressed body
Outer(t) == IF t \in {"rpmonly", "identity"} THEN {"magic", "nevr", "add"} ELSE {"lead", "signature", "header"}
Fields(v) == {"f-magic", "f-src_nevr_len", "f-src_nevr", "f-seq_len", "f-sequence", "f-tgt_md5", "f-leadsig_len", "f-leadsig", "f-payload_fmt_off", "f-int_count",
              "f-ext_count", "f-int_a", "f-int_b", "f-ext_a", "f-ext_b", "f-ext_data_len", "f-add_len", "f-add", "f-int_data_len", "f-int_data"}
             \cup (IF v >= 2 THEN {"f-tgt_size", "f-tgt_comp", "f-tgt_comp_param_len", "f-tgt_comp_param"} ELSE {})
             \cup (IF v >= 3 THEN {"f-tgt_header_len", "f-offadj_count", "f-offadj_a", "f-offadj_b"} ELSE {})
DeltaRegions(ty) == Outer(ty.type) \cup {"body", "whole"} \cup Fields(ty.version)
OldRegions == {"lead", "signature", "header", "payload", "archive", "entryhead", "entryname", "entrydata", "whole"}
FileRegions == {"contents", "existence"}
Hows     == {"flip", "zero", "ones", "cut", "drop", "insert", "dup", "random", "plus", "minus", "empty", "other"}
\* near: the digest of what is rebuilt agrees with the right one up to a zero byte
Near(ty, digest) == [where : {"delta"}, region : IF digest = "full" THEN {"f-leadsig"} ELSE IF ty.type \in {"standard", "self"} THEN {"header"} ELSE {}, how : {"near"}]
Damages(ty, via) == [where : {"delta"}, region : DeltaRegions(ty), how : Hows]
                    \cup (IF via = "package" THEN [where : {"old"}, region : OldRegions, how : Hows] ELSE [where : {"file"}, region : FileRegions, how : Hows])
Vias(ty) == IF ty.type \in {"standard", "self"} THEN {"package", "disk"} ELSE {"package"}

Errors == {"MEMORY", "ARGS", "IO", "FORMAT", "CONFIG", "OTHER", "OVERFLOW", "PROG", "MISMATCH", "NOINSTALL"}
VARIABLES ty, via, digest, dmg, made, rc, out
vars == <<ty, via, digest, dmg, made, rc, out>>
Init == /\ ty \in Types /\ via \in Vias(ty) /\ digest \in Digests /\ dmg = <<>> /\ made = "target" /\ rc = "none" /\ out = "none"
Hurt == /\ rc = "none" /\ Len(dmg) < MaxDamage
        /\ \E d \in Damages(ty, via) \cup Near(ty, digest) : dmg' = Append(dmg, d)
        /\ made' \in {"target", "covered", "else", "nothing"}         \* what the damaged inputs would rebuild; covered: right header and payload
        /\ UNCHANGED <<ty, via, digest, rc, out>>
\* the digest in the delta is that of the target unless that very field was hit; then nothing can match it
Digest == IF digest = "none" THEN "covered" ELSE IF \E k \in DOMAIN dmg : dmg[k].region = "f-tgt_md5" THEN "else" ELSE "target"
Apply == /\ rc = "none"
         /\ IF made = "nothing" THEN rc' \in Errors /\ out' \in {"none", "part"}
            ELSE IF Digest = "covered" /\ made \in {"target", "covered"} THEN rc' \in Errors \cup {"OK"} /\ out' = (IF rc' = "OK" THEN made ELSE "part")
            ELSE IF made = "target" /\ Digest = "target" THEN rc' \in Errors \cup {"OK"} /\ out' = (IF rc' = "OK" THEN "target" ELSE "part")
            ELSE rc' \in Errors /\ out' \in {"target", "else", "part"}
         /\ UNCHANGED <<ty, via, digest, dmg, made>>
Next == Hurt \/ Apply
Spec == Init /\ [][Next]_vars
SuccessIsTarget == rc = "OK" => out = "target" \/ (digest = "none" /\ out = "covered")
UndamagedWorks == Len(dmg) = 0 => made = "target"
Emit == (Len(dmg) = 1 /\ rc = "none" /\ made = "target") => PrintT(ToJson([ty |-> ty, via |-> via, digest |-> digest, d |-> dmg[1]]))
=============================================================================
