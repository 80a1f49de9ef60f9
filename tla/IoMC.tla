-------------------------------- MODULE IoMC --------------------------------
(* The discipline the library's operations follow, as a client of Io.tla: a    *)
(* program of calls, any of which may fail or do less than asked while there   *)
(* are Faults left. With Policy "good" the contract holds; the other policies  *)
(* are the ways to get it wrong, each of which the invariants must notice.     *)
EXTENDS Io
CONSTANTS Policy, Faults
\* what the operations do, reduced: two inputs, temporary storage for one of them, two outputs
Programs == {
  \* reading and checking
  << [k |-> "open", f |-> 1, role |-> "in"], [k |-> "read", f |-> 1, n |-> 2], [k |-> "close", f |-> 1] >>,
  \* making: both packages, the delta and a sequence file
  << [k |-> "open", f |-> 1, role |-> "in"], [k |-> "read", f |-> 1, n |-> 2], [k |-> "close", f |-> 1],
     [k |-> "open", f |-> 2, role |-> "in"], [k |-> "read", f |-> 2, n |-> 1], [k |-> "close", f |-> 2],
     [k |-> "open", f |-> 3, role |-> "out"], [k |-> "write", f |-> 3, n |-> 3], [k |-> "close", f |-> 3],
     [k |-> "open", f |-> 4, role |-> "out"], [k |-> "write", f |-> 4, n |-> 1], [k |-> "close", f |-> 4] >>,
  \* applying with blocks moved to temporary storage
  << [k |-> "open", f |-> 1, role |-> "in"], [k |-> "read", f |-> 1, n |-> 2], [k |-> "close", f |-> 1],
     [k |-> "open", f |-> 3, role |-> "out"], [k |-> "open", f |-> 2, role |-> "in"], [k |-> "read", f |-> 2, n |-> 2],
     [k |-> "temp", f |-> 5], [k |-> "write", f |-> 5, n |-> 2], [k |-> "read", f |-> 5, n |-> 2],
     [k |-> "write", f |-> 3, n |-> 2], [k |-> "close", f |-> 2], [k |-> "close", f |-> 5], [k |-> "close", f |-> 3] >> }
VARIABLES prog, pc, left,    \* left: what remains of the current transfer
          stored,            \* units of each output that will be found in the file
          short,             \* some transfer gave less than was asked and nothing was done about it
          failed, named, budget, rc
mvars == <<iovars, prog, pc, left, stored, short, failed, named, budget, rc>>
Step == prog[pc]
Path(f) == "f" \o ToString(f)
Need(s) == IF s.k \in {"read", "write"} THEN s.n ELSE 0
MCInit == /\ fds = NoFds /\ temps = {} /\ bad = {} /\ prog \in Programs /\ pc = 1 /\ left = 0 /\ stored = [f \in {3, 4} |-> 0]
          /\ short = FALSE /\ failed = FALSE /\ named = {} /\ budget = Faults /\ rc = "none"
Advance == pc' = pc + 1 /\ left' = IF pc < Len(prog) THEN Need(prog[pc + 1]) ELSE 0
Stay == UNCHANGED <<pc, left>>
Fail == failed' = TRUE /\ Stay
Running == rc = "none" /\ ~failed /\ pc <= Len(prog)
Spend == budget > 0 /\ budget' = budget - 1

DoOpen == Step.k = "open" /\
  \/ Open(Step.f, Step.role, Path(Step.f), Step.role = "out") /\ Advance /\ UNCHANGED <<stored, short, failed, named, budget>>
  \/ Spend /\ OpenFails /\ Fail /\ UNCHANGED <<stored, short, named>>
\* the name goes at once
DoTemp == Step.k = "temp" /\
  \/ Temp(Step.f, Path(Step.f)) /\ named' = named \cup {Step.f} /\ Advance /\ UNCHANGED <<stored, short, failed, budget>>
  \/ Spend /\ OpenFails /\ Fail /\ UNCHANGED <<stored, short, named>>
Unname == named # {} /\ Policy # "keepname" /\ \E f \in named : Changes("temp", Path(f), TRUE, TRUE) /\ named' = named \ {f} /\ UNCHANGED <<prog, pc, left, stored, short, failed, budget, rc>>
DoRead == Step.k = "read" /\ Reads(Step.f) /\ UNCHANGED <<stored, named>> /\
  \/ Advance /\ UNCHANGED <<short, failed, budget>>
  \/ Spend /\ (IF Policy = "ignoreread" THEN Advance /\ short' = TRUE /\ failed' = failed ELSE Fail /\ short' = short)
  \* less than asked: more is asked for, or the end of the file is a failure
  \/ left > 1 /\ Spend /\ (IF Policy = "ignoreshort" THEN Advance /\ short' = TRUE ELSE left' = left - 1 /\ UNCHANGED <<pc, short>>) /\ failed' = failed
Put(n) == stored' = IF Step.f \in DOMAIN stored THEN [stored EXCEPT ![Step.f] = @ + n] ELSE stored
DoWrite == Step.k = "write" /\ named' = named /\
  \/ Writes(Step.f, left) /\ Put(left) /\ Advance /\ UNCHANGED <<short, failed, budget>>
  \/ Spend /\ Writes(Step.f, 0) /\ stored' = stored /\ (IF Policy = "ignorewrite" THEN Advance /\ failed' = failed /\ short' = (Step.f = 5) ELSE Fail /\ short' = short)
  \/ left > 1 /\ Spend /\ Writes(Step.f, 1) /\ Put(1) /\ failed' = failed /\ (IF Policy = "ignoreshort" THEN Advance /\ short' = (Step.f = 5) ELSE left' = left - 1 /\ UNCHANGED <<pc, short>>)
\* closing an output that fails loses what was written last
DoClose == Step.k = "close" /\ Close(Step.f) /\ UNCHANGED <<short, named>> /\
  \/ Advance /\ UNCHANGED <<stored, failed, budget>>
  \/ Spend /\ (stored' = IF Step.f \in DOMAIN stored THEN [stored EXCEPT ![Step.f] = @ - 1] ELSE stored) /\ (IF Policy = "ignoreclose" THEN Advance /\ failed' = failed ELSE Fail)
\* cleaning up after a failure
Cleanup == /\ rc = "none" /\ failed /\ Policy # "leak" /\ \E f \in DOMAIN fds : Close(f)
           /\ UNCHANGED <<prog, pc, left, stored, short, failed, named, budget, rc>>
Return == /\ rc = "none" /\ (pc > Len(prog) \/ failed) /\ (Policy = "keepname" \/ named = {}) /\ (~failed \/ Policy = "leak" \/ fds = NoFds)
          /\ Leaves /\ rc' = IF failed THEN "IO" ELSE "OK"
          /\ UNCHANGED <<prog, pc, left, stored, short, failed, named, budget>>
MCNext == \/ Running /\ (named = {} \/ Policy = "keepname") /\ (DoOpen \/ DoTemp \/ DoRead \/ DoWrite \/ DoClose) /\ UNCHANGED <<prog, rc>>
          \/ Unname \/ Cleanup \/ Return
MCSpec == MCInit /\ [][MCNext]_mvars /\ WF_mvars(MCNext)
Wanted(f) == LET ws == {i \in 1..Len(prog) : prog[i].k = "write" /\ prog[i].f = f} IN IF ws = {} THEN 0 ELSE prog[CHOOSE i \in ws : TRUE].n
Outs == [f \in {3, 4} |-> stored[f]]
AllHonest == rc # "none" => Honest(rc, <<Outs, short>>, "OK", <<[f \in {3, 4} |-> Wanted(f)], FALSE>>)
NothingBad == bad = {}
Undisturbed == (rc # "none" /\ budget = Faults) => rc = "OK"
Ends == <>(rc # "none")
=============================================================================
