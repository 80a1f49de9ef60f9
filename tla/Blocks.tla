------------------------------- MODULE Blocks -------------------------------
(* How the source of a delta is read while rebuilding the target: in blocks, a *)
(* limited number of which are kept. The old package can only be read from     *)
(* front to back ("package"), so blocks still needed later have to be kept or  *)
(* put into a temporary file; installed files can be read again ("files").     *)
(* A plan is a list of copies <<first block, last block>>; last use of a block *)
(* is known from the plan. Entries are [id, kind, data]; kind "core" may be    *)
(* paged, "again" can be read again, "free" holds nothing.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS NBlocks,      \* blocks of the source: 0..NBlocks-1
          PlanLen,      \* copies in a plan
          Caps,         \* capacities considered
          Kinds,        \* kinds of source
          Period,       \* every Period-th allocation cleans up first (a counter shared by all operations of a process)
          Flaw          \* "none", or a way of doing it wrong the properties must notice

None == [id |-> 0 - 1, kind |-> "none", data |-> 0 - 1]
VARIABLES plan, cap, src, tick,        \* chosen at the start
          s,                           \* the reader's state
          at,                          \* <<copy, block>> to be read next
          got                          \* what reading delivered: [copy, want, data]
vars == <<plan, cap, src, tick, s, at, got>>

Blk == 0..NBlocks-1
LastUse(p, b) == FoldLeft(LAMBDA m, i : IF p[i][1] <= b /\ b <= p[i][2] THEN i ELSE m, 0, [i \in 1..Len(p) |-> i])

Empty == [core |-> <<>>, free |-> <<>>, pages |-> <<>>, pos |-> 0, tick |-> 0, bad |-> ""]
InCore(st, b) == SelectSeq(st.core, LAMBDA e : e.id = b /\ e.kind \in {"core", "again"})
InPages(st, b) == SelectSeq(st.pages, LAMBDA e : e.id = b)

\* one page in the temporary file; a page whose block is not needed any more is overwritten
PageOut(st, e, copy, p) ==
  IF InPages(st, e.id) # <<>> THEN st
  ELSE LET stale == SelectSeq([i \in 1..Len(st.pages) |-> i], LAMBDA i : LastUse(p, st.pages[i].id) < copy)
       IN IF stale # <<>> THEN [st EXCEPT !.pages[stale[1]] = e] ELSE [st EXCEPT !.pages = Append(@, e)]
\* blocks nobody needs any more are set free
Clean(st, want, copy, p) ==
  LET dead(e) == \/ (IF Flaw = "early" THEN LastUse(p, e.id) <= copy ELSE LastUse(p, e.id) < copy)
                 \/ (e.id < want /\ LastUse(p, e.id) = copy)
  IN [st EXCEPT !.core = SelectSeq(st.core, LAMBDA e : ~dead(e)), !.free = st.free \o SelectSeq(st.core, dead)]
\* room for one block: <<state, evicted>>
Room(st, want, copy, p, k) ==
  LET Fresh(x) == IF x.free # <<>> THEN [x EXCEPT !.free = Tail(@)] ELSE x
      Grow(x) == Len(x.core) + Len(x.free) < k
      tk == [st EXCEPT !.tick = (@ + 1) % Period]
  IN IF st.free # <<>> THEN Fresh(st)
     ELSE IF Grow(st) /\ tk.tick # 0 THEN tk
     ELSE LET c == Clean(IF Grow(st) THEN tk ELSE st, want, copy, p) IN
          IF c.free # <<>> THEN Fresh(c)
          ELSE IF Grow(c) THEN c
          \* the block that was taken in first goes
          ELSE LET e == c.core[1] r == [c EXCEPT !.core = Tail(@)]
               IN IF e.kind = "core" /\ Flaw # "nopage" THEN PageOut(r, e, copy, p) ELSE r
Put(st, e) == [st EXCEPT !.core = Append(@, e)]

\* reading on in the package until the wanted block comes by; what is still needed is kept
RECURSIVE ReadOn(_, _, _, _, _)
ReadOn(st, want, copy, p, k) ==
  IF st.pos > want THEN [st EXCEPT !.bad = "passed by"]
  ELSE LET e == [id |-> st.pos, kind |-> "core", data |-> st.pos] n == [st EXCEPT !.pos = @ + 1]
       IN IF st.pos = want THEN Put(n, e)
          ELSE IF LastUse(p, e.id) <= (IF Flaw = "skip" THEN copy + 1 ELSE copy) THEN ReadOn(n, want, copy, p, k)
          \* the block being filled counts as one of those kept
          ELSE IF n.free # <<>> THEN ReadOn(Put([n EXCEPT !.free = Tail(@)], e), want, copy, p, k)
          ELSE IF Len(n.core) + Len(n.free) + 1 < k THEN ReadOn(Put(n, e), want, copy, p, k)
          ELSE ReadOn(PageOut(n, e, copy, p), want, copy, p, k)
Read(st, want, copy, p, k, kind) ==
  IF InCore(st, want) # <<>> THEN st
  ELSE LET r == Room(st, want, copy, p, k)
       IN IF InPages(st, want) # <<>> THEN
             \* the page may have been given up to make room
             IF InPages(r, want) = <<>> THEN [r EXCEPT !.bad = "page lost"] ELSE Put(r, [InPages(r, want)[1] EXCEPT !.kind = "core"])
          ELSE IF kind = "files" THEN Put(r, [id |-> want, kind |-> "again", data |-> want])
          ELSE ReadOn(r, want, copy, p, k)

Ranges == {<<a, b>> \in Blk \X Blk : a <= b}
Init == /\ plan \in UNION {[1..n -> Ranges] : n \in 1..PlanLen} /\ cap \in Caps /\ src \in Kinds /\ tick \in 0..Period-1
        /\ s = [Empty EXCEPT !.tick = tick] /\ at = <<1, plan[1][1]>> /\ got = None
Next == /\ at[1] <= Len(plan) /\ s.bad = ""
        /\ LET st == Read(s, at[2], at[1], plan, cap, src) c == InCore(st, at[2]) IN
           /\ s' = st
           /\ got' = [id |-> at[2], kind |-> "got", data |-> IF c = <<>> THEN 0 - 1 ELSE c[1].data]
        /\ at' = IF at[2] < plan[at[1]][2] THEN <<at[1], at[2] + 1>>
                 ELSE IF at[1] < Len(plan) THEN <<at[1] + 1, plan[at[1] + 1][1]>> ELSE <<at[1] + 1, 0>>
        /\ UNCHANGED <<plan, cap, src, tick>>
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* every read delivers the block that was asked for
Right == s.bad = "" /\ (got.kind = "got" => got.data = got.id)
\* no more blocks in memory than allowed
Bounded == Len(s.core) + Len(s.free) <= cap
\* what the package will not give again and is still needed is somewhere
Kept == src = "package" /\ s.bad = "" => \A b \in 0..s.pos-1 :
            LastUse(plan, b) > at[1] => InCore(s, b) # <<>> \/ InPages(s, b) # <<>>
\* contents never get mixed up
Sane == \A i \in 1..Len(s.core) : s.core[i].kind # "none" => s.core[i].data = s.core[i].id
\* installed files need no temporary storage
NoPages == src = "files" => s.pages = <<>>
=============================================================================
