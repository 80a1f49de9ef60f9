--------------------------- MODULE DeltaMutation ---------------------------
(* Single changes to well-formed deltas: which item is changed and how. What   *)
(* must come of it is decided by DeltaFile's reader on the actual bytes.        *)
EXTENDS Integers, Sequences, TLC, Json
Items == {"magic", "srclen", "src", "seqlen", "seq", "md5", "tgtsize", "tgtcomp", "paramlen", "param", "hdrlen", "adjcount", "adja", "adjb", "leadlen", "lead", "fmtoff",
          "intcount", "extcount", "inta", "intb", "exta", "extb", "extlen", "addlen", "add", "intlen", "data",
          "sigcount", "sigsize"}       \* inside the lead: the numbers a signature starts with
Outer == {"otherstart", "outermagic", "tgtlen", "tgt", "outeraddlen", "outeradd"}
NumHow == {"zero", "one", "minus1", "plus1", "minus2", "plus2", "minus16", "plus16", "double", "half", "rest", "restplus1", "low8", "top8", "i31-1", "i31", "i31+1", "u32-1", "u32", "u32/2", "u30", "u29", "millions", "byteswap"}
BytesHow == {"first", "last", "zeros", "ones", "shorter", "longer", "flip"}
\* another length with contents to match: the delta stays consistent
FitHow == {"fit0", "fit1", "fit15", "fit16", "fit17", "fit32", "fit56", "fit96", "fit111", "fit112", "fit113"}
Sized == {"src", "seq", "param", "lead", "add", "tgt", "outeradd"}
Types == {[type |-> "standard", version |-> v] : v \in 1..3} \cup {[type |-> "rpmonly", version |-> 3]}
Numeric == {"srclen", "seqlen", "tgtsize", "tgtcomp", "paramlen", "hdrlen", "adjcount", "leadlen", "fmtoff", "intcount", "extcount", "extlen", "addlen", "intlen", "tgtlen", "outeraddlen", "sigcount", "sigsize",
            "adja", "adjb", "inta", "intb", "exta", "extb"}
VARIABLE m
Init == m \in {x \in [ty : Types, item : Items \cup Outer, how : NumHow \cup BytesHow \cup FitHow] :
                 /\ x.item \in Outer => x.ty.type = "rpmonly"
                 /\ x.item \in {"tgtsize", "tgtcomp", "paramlen", "param"} => x.ty.version >= 2
                 /\ x.item \in {"hdrlen", "adjcount", "adja", "adjb"} => x.ty.version >= 3
                 /\ (x.item \in Numeric) = (x.how \in NumHow)
                 /\ x.how \in FitHow => x.item \in Sized}
Next == FALSE /\ UNCHANGED m
Emit == PrintT(ToJson(m))
=============================================================================
