-------------------------------- MODULE History --------------------------------
(* One process, or several one after another, calling the library in any order  *)
(* and under any names, locations, locale, file mode mask, working directory,   *)
(* with outputs that did not exist or hold something else, and with failed and  *)
(* disturbed calls in between. A call's answer and what it writes depend on the *)
(* delta or packages it is given and nothing else: Key names what may matter.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NJ,       \* jobs: a pair of packages with options, and deltas of them
          NT,       \* names outputs are written to
          Rich      \* all names and kinds of calls, for walks
Jobs == 1..NJ
Outs == 1..NT
Aliases == IF Rich THEN {"plain", "relative", "dots", "slashes", "space", "long", "symlink", "hard", "strange", "utf8", "reused"} ELSE {"plain", "symlink"}
OutNames == IF Rich THEN {"plain", "relative", "dots", "slashes", "symlink"} ELSE {"plain"}
Fills == IF Rich THEN {"absent", "empty", "short", "long", "sparse", "delta", "rpm", "linked"} ELSE {"absent", "short", "long"}
Envs == IF Rich THEN [locale : {"C", "C.UTF-8", "POSIX"}, umask : {0, 18, 63, 7}, cwd : {"home", "root", "sub"}, stdin : {"open", "closed"}, tmp : {"none", "set", "nowhere"}, heap : {0, 165, 255}]
        ELSE [locale : {"C", "C.UTF-8"}, umask : {0}, cwd : {"home"}, stdin : {"open"}, tmp : {"none"}, heap : {165}]
Plain == [locale |-> "C", umask |-> 18, cwd |-> "home", stdin |-> "open", tmp |-> "none", heap |-> 165]
Start == IF Rich THEN Plain ELSE [Plain EXCEPT !.umask = 0]
\* what was broken about a call that is not to be judged: it may leave anything in its output
Mishaps == IF Rich THEN {"wrongold", "samenevr", "edited", "gone", "junkdelta", "junkpkg", "noold", "nodelta", "cutdelta", "nodir", "iofault", "iofaults", "memfault", "memfaults", "badopts"} ELSE {"iofault", "junkpkg"}

VARIABLES env,      \* of the process
          calls,    \* made in this process
          out,      \* contents of the outputs
          memo,     \* answers seen, by key
          last
vars == <<env, calls, out, memo, last>>
Key(o) == IF o.op = "make" THEN <<"make", o.j>>
          ELSE IF o.op = "apply" THEN <<"apply", o.j, o.src>>
          ELSE IF o.op = "check" THEN <<"check", o.j, o.mode>>
          ELSE IF o.op = "checkseq" THEN <<"checkseq", o.j, o.src>>
          ELSE IF o.op = "mishap" THEN <<"mishap", o.j, o.what, o.base>>
          ELSE <<"read", o.j>>
\* (reused: a name that stood for another file before; samenevr: a package that only looks like the source; edited, gone: an installed file, for the time of the call)
\* mishaps of the inputs have their answer like anything else; where the system fails a call it may be any
Judged(o) == o.op # "mishap" \/ o.what \notin {"iofault", "iofaults", "memfault", "memfaults"}
Writes(o) == o.op \in {"make", "apply"} \/ (o.op = "mishap" /\ o.base \in {"make", "apply"})
\* a replaced output holds the whole result and nothing of what was there
Replace(before, result) == result
After(o, ok) == IF Writes(o) THEN [out EXCEPT ![o.t] = IF ok /\ o.op # "mishap" THEN Replace(@, Key(o)) ELSE <<"leftover">>] ELSE out

Init == /\ env = Start /\ calls = 0 /\ out = [t \in Outs |-> <<"absent">>] /\ memo = [k \in {} |-> 0] /\ last = [op |-> "init"]
Do(o) == /\ calls' = calls + 1 /\ last' = o
         /\ out' = After(o, TRUE)
         /\ memo' = IF Judged(o) THEN [k \in DOMAIN memo \cup {Key(o)} |-> IF k \in DOMAIN memo THEN memo[k] ELSE calls] ELSE memo
         /\ UNCHANGED env
Make(j, t, a, b, n) == Do([op |-> "make", j |-> j, t |-> t, old |-> a, new |-> b, outname |-> n])
Apply(j, t, s, a, b, n) == Do([op |-> "apply", j |-> j, t |-> t, src |-> s, old |-> a, delta |-> b, outname |-> n])
Check(j, m, a) == Do([op |-> "check", j |-> j, mode |-> m, delta |-> a])
CheckSeq(j, s, a) == Do([op |-> "checkseq", j |-> j, src |-> s, old |-> a])
Read(j, a) == Do([op |-> "read", j |-> j, delta |-> a])
Mishap(j, t, w, b, k) == Do([op |-> "mishap", j |-> j, t |-> t, what |-> w, base |-> b, k |-> k])
SetEnv(e) == env' = e /\ last' = [op |-> "env", env |-> e] /\ UNCHANGED <<calls, out, memo>>
Fill(t, f) == out' = [out EXCEPT ![t] = <<f>>] /\ last' = [op |-> "fill", t |-> t, fill |-> f] /\ UNCHANGED <<env, calls, memo>>
Process == env' = Start /\ calls' = 0 /\ last' = [op |-> "process"] /\ UNCHANGED <<out, memo>>

Sources == {"file", "installed"}
Next == \/ \E j \in Jobs, t \in Outs, a \in Aliases, n \in OutNames : Make(j, t, a, "plain", n)
        \/ \E j \in Jobs, t \in Outs, s \in Sources, a \in Aliases, n \in OutNames : Apply(j, t, s, a, "plain", n)
        \/ \E j \in Jobs, m \in {1, 2}, a \in Aliases : Check(j, m, a)
        \/ \E j \in Jobs, a \in Aliases : CheckSeq(j, "file", a) \/ Read(j, a)
        \/ \E j \in Jobs, t \in Outs, w \in Mishaps, b \in {"make", "apply"} : Mishap(j, t, w, b, 1)
        \/ \E e \in Envs : SetEnv(e)
        \/ \E t \in Outs, f \in Fills : Fill(t, f)
        \/ Process
Spec == Init /\ [][Next]_vars
Bound == calls <= 2
View == <<env, calls, out, DOMAIN memo>>
\* only a call that writes changes an output, and only its own
OnlyOwn == [][\A t \in Outs : out'[t] # out[t] => last'.op = "fill" \/ (Writes(last') /\ last'.t = t)]_vars
\* after it the output does not show what was there, who asked, or where
Pure == [][\A t \in Outs : last'.op \in {"make", "apply"} /\ calls' > calls /\ last'.t = t => out'[t] = Key(last')]_vars
\* an answer once given is never given differently
Stable == [][\A k \in DOMAIN memo : k \in DOMAIN memo' /\ memo'[k] = memo[k]]_vars
ProcessKeeps == [][calls' < calls => out' = out /\ memo' = memo]_vars
---------------------------------------------------------------------------
One(S) == {RandomElement(IF last = last THEN S ELSE S)}
Walk == \E k \in One(1..24), j \in One(Jobs), t \in One(Outs), a \in One(Aliases), b \in One(Aliases), n \in One(OutNames), s \in One(Sources) :
          IF k <= 6 THEN Make(j, t, a, b, n)
          ELSE IF k <= 11 THEN Apply(j, t, s, a, b, n)
          ELSE IF k = 12 THEN \E m \in One({1, 2}) : Check(j, m, a)
          ELSE IF k = 13 THEN CheckSeq(j, s, a)
          ELSE IF k = 14 THEN Read(j, a)
          ELSE IF k <= 18 THEN \E w \in One(Mishaps) : \E x \in One(IF w \in {"wrongold", "samenevr", "edited", "gone"} THEN {"apply", "check"} ELSE {"make", "apply", "check", "read"}), q \in One(1..60) : Mishap(j, t, w, x, q)
          ELSE IF k <= 20 THEN \E e \in One(Envs) : SetEnv(e)
          ELSE IF k <= 23 THEN \E f \in One(Fills) : Fill(t, f)
          ELSE Process
Step == \E n \in 1..4 : Walk
Walks == Init /\ [][Step]_vars
Emit == PrintT(ToJson([n |-> TLCGet("level"), op |-> last]))
=============================================================================
