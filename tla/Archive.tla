------------------------------ MODULE Archive ------------------------------
(* What a standard delta keeps of the old package's archive. The archive is     *)
(* walked entry by entry; entries an installation still has go into the source  *)
(* stream with a header normalised from the package metadata, the others are    *)
(* left out. The sequence names the entries used, the offset adjustments tell   *)
(* where in the original archive each piece of the stream came from.            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS MaxEntries, Mode           \* Mode: "walk" | "class"

Pad4(n) == ((n + 3) \div 4) * 4
HeadLen(namelen) == Pad4(110 + namelen + 1)          \* a cpio header, the name, its terminator

(* entry: [idx: position in the package metadata or -1, kind, namelen: of the   *)
(* name without leading "./" or "/", arcname: length of the name as archived,   *)
(* arcsize, size (metadata), linklen, flags, verify, color: sets, lib: in a     *)
(* multilib directory, mode, rdev]                                              *)
Usable(e, colors) ==
  /\ e.idx >= 0
  /\ e.kind = "reg" =>
       /\ e.arcsize = e.size
       /\ e.flags \cap {"config", "missingok", "ghost"} = {}
       /\ {"digest", "size"} \subseteq e.verify
       /\ colors /\ e.color \cap {"elf32", "elf64"} # {} => e.lib

Body(e) == IF e.kind = "sym" THEN e.linklen ELSE e.arcsize
WalkInit == [pos |-> 0, orig |-> 0, len |-> 0, prev |-> 0, adj |-> <<>>, seq |-> <<>>, pieces |-> <<>>]
\* pos follows the original archive as far as the adjustments already recorded tell; orig is the true place
Step(s, e, colors) ==
  LET olen == HeadLen(e.arcname) + Pad4(e.arcsize)
      moved == s.len # s.pos
      nlen == HeadLen(e.namelen + 2) + Pad4(Body(e))
  IN IF ~Usable(e, colors) THEN [s EXCEPT !.pos = @ + olen, !.orig = @ + olen]
     ELSE [pos  |-> (IF moved THEN s.len ELSE s.pos) + olen,
           orig |-> s.orig + olen,
           len  |-> s.len + nlen,
           prev |-> IF moved THEN s.len ELSE s.prev,
           adj  |-> IF moved THEN Append(s.adj, <<s.len - s.prev, s.pos - s.len>>) ELSE s.adj,
           seq  |-> Append(s.seq, e.idx),
           pieces |-> Append(s.pieces, [at |-> s.len, orig |-> s.orig, mode |-> e.mode, namesize |-> e.namelen + 3,
                                        size |-> IF e.kind = "sym" THEN e.linklen ELSE IF e.kind = "reg" THEN e.size ELSE 0,
                                        major |-> IF e.kind \in {"chr", "blk"} THEN e.rdev \div 256 ELSE 0,
                                        minor |-> IF e.kind \in {"chr", "blk"} THEN e.rdev % 256 ELSE 0,
                                        body |-> Body(e)])]
Walk(ents, colors) == FoldLeft(LAMBDA s, e : Step(s, e, colors), WalkInit, ents)
StreamLen(s) == s.len + HeadLen(10)                 \* with the trailer

\* place in the original archive of position p of the stream, going by the adjustments
Map(adj, p) == FoldLeft(LAMBDA a, x : IF a.at + x[1] <= p THEN [at |-> a.at + x[1], by |-> a.by + x[2]] ELSE [at |-> a.at + x[1], by |-> a.by],
                        [at |-> 0, by |-> 0], adj).by + p

\* an adjustment holds no number above most (2^31-1 in the files): bigger ones are divided
RECURSIVE Parts(_, _, _)
Parts(d, by, most) == IF d > most THEN <<<<most, 0>>>> \o Parts(d - most, by, most)
                      ELSE IF by > most THEN <<<<d, most>>>> \o Parts(0, by - most, most)
                      ELSE IF -by > most THEN <<<<d, -most>>>> \o Parts(0, by + most, most)
                      ELSE <<<<d, by>>>>
Divided(adj, most) == FoldLeft(LAMBDA o, a : o \o Parts(a[1], a[2], most), <<>>, adj)

---------------------------------------------------------------------------
(* walk: every short archive over entries of various shapes                     *)
All == {"digest", "size", "other"}
Shape(k, nl, dot, sz, agree, fl) ==
  [idx |-> 0, kind |-> k, namelen |-> nl, arcname |-> nl + dot, arcsize |-> (IF k = "dir" THEN 0 ELSE sz), size |-> (IF agree THEN sz ELSE sz + 1),
   linklen |-> sz, flags |-> fl, verify |-> All, color |-> {}, lib |-> FALSE, mode |-> 0, rdev |-> 0]
Shapes == {Shape(k, nl, dot, sz, ag, fl) : k \in {"reg", "sym", "dir"}, nl \in {1, 3, 4}, dot \in {0, 2}, sz \in {0, 1, 4}, ag \in BOOLEAN, fl \in {{}, {"config"}}}
ModelShapes == {s \in Shapes : s.kind # "reg" => s.flags = {} /\ s.size = s.linklen}

(* class: what a single entry can be, for building packages                     *)
Kinds == {"reg", "hard", "dir", "sym", "chr", "blk", "fifo", "sock"}
Flags == {"none", "config", "missingok", "ghost", "doc", "noreplace", "config+noreplace", "license"}
Verif == {"all", "nodigest", "nosize", "noother", "nothing"}
Color == {"none", "elf32", "elf64", "both", "mips"}
Place == {"lib", "lib32", "lib64", "mylib", "bin", "libexec"}
Where == {"both", "headeronly", "archiveonly"}
ClassOK(c) ==
  LET odd == (IF c.flag = "none" THEN 0 ELSE 1) + (IF c.verify = "all" THEN 0 ELSE 1) + (IF c.color = "none" THEN 0 ELSE 1)
             + (IF c.agree THEN 0 ELSE 1) + (IF c.where = "both" THEN 0 ELSE 1) + (IF c.kind = "reg" THEN 0 ELSE 1)
  IN odd <= 2 /\ (c.place \in {"bin", "lib"} \/ c.color # "none") /\ (c.kind \in {"reg", "hard"} \/ c.agree)
Classes == {c \in [kind : Kinds, flag : Flags, verify : Verif, color : Color, place : Place, where : Where, agree : BOOLEAN, colors : BOOLEAN] : ClassOK(c)}

VARIABLES ents, st, cls
vars == <<ents, st, cls>>
Init == /\ ents = <<>> /\ st = WalkInit
        /\ IF Mode = "class" THEN cls \in Classes ELSE cls = "none"
Add == /\ Mode = "walk" /\ Len(ents) < MaxEntries
       /\ \E s \in ModelShapes : \E inhdr \in BOOLEAN :
            LET e == [s EXCEPT !.idx = IF inhdr THEN Len(ents) ELSE -1]
            IN ents' = Append(ents, e) /\ st' = Step(st, e, TRUE)
       /\ UNCHANGED cls
Next == Add
Spec == Init /\ [][Next]_vars

\* every piece is found in the original archive where the adjustments say
MapExact == \A k \in DOMAIN st.pieces : Map(st.adj, st.pieces[k].at) = st.pieces[k].orig
DividedExact == \A most \in {1, 7, 100} : LET d == Divided(st.adj, most)
                IN /\ \A k \in DOMAIN d : d[k][1] \in 0..most /\ d[k][2] \in -most..most
                   /\ \A k \in DOMAIN st.pieces : Map(d, st.pieces[k].at) = st.pieces[k].orig
\* nothing but usable entries, in archive order, each once
SeqExact == st.seq = [k \in 1..Len(SelectSeq(ents, LAMBDA e : Usable(e, TRUE))) |-> SelectSeq(ents, LAMBDA e : Usable(e, TRUE))[k].idx]
Contiguous == \A k \in DOMAIN st.pieces : st.pieces[k].at = IF k = 1 THEN 0 ELSE st.pieces[k-1].at + Pad4(110 + st.pieces[k-1].namesize) + Pad4(st.pieces[k-1].body)
NoAdjWhenSame == (st.adj = <<>>) => \A k \in DOMAIN st.pieces : st.pieces[k].at = st.pieces[k].orig
EmitClass == Mode = "class" => PrintT(ToJson(cls))
=============================================================================
