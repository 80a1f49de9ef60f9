--------------------------------- MODULE Io ---------------------------------
(* One operation of the library and the files it works on: the calls it makes  *)
(* to the system, each of which may fail, and what it may answer.              *)
(*                                                                             *)
(* A file has a role in the operation:                                         *)
(*   "in"    a package, delta or installed file it was given                   *)
(*   "db"    the package database, handled by librpm                           *)
(*   "out"   a file it was asked to write (each has a name)                    *)
(*   "temp"  temporary storage it made itself                                  *)
(*   "else"  anything else                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES fds,      \* open descriptors: fd -> [role, path]
          temps,    \* temporary files that have a name
          bad       \* what the operation has done that it must not do
iovars == <<fds, temps, bad>>

NoFds == [x \in {} |-> 0]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Note(cond, what) == bad' = IF cond THEN bad ELSE bad \cup {what}

Changeable(role) == role \in {"out", "temp", "db"}
Fresh == fds = NoFds /\ temps = {} /\ bad = {}
\* w: the call creates or empties the file
Open(fd, role, path, w) == /\ fds' = (fd :> [role |-> role, path |-> path]) @@ fds
                           /\ temps' = temps /\ Note(w => Changeable(role), "creates or empties a file it was not asked to write")
OpenFails == UNCHANGED iovars
Temp(fd, path) == fds' = (fd :> [role |-> "temp", path |-> path]) @@ fds /\ temps' = temps \cup {path} /\ bad' = bad
Reads(fd)  == UNCHANGED iovars
Writes(fd, n) == UNCHANGED <<fds, temps>> /\ Note((n > 0 /\ fd \in DOMAIN fds) => Changeable(fds[fd].role), "writes to a file it was not asked to write")
Close(fd)  == fds' = Without(fds, fd) /\ UNCHANGED <<temps, bad>>
\* unlink, chmod and the like; r: it worked
Changes(role, path, gone, r) == /\ fds' = fds /\ temps' = IF gone /\ r THEN temps \ {path} ELSE temps
                                /\ Note(r => Changeable(role) \/ path \in temps, "changes a file it was not asked to write")
Renames(p, q, qrole, r) == /\ fds' = fds /\ temps' = IF r THEN temps \ {p} ELSE temps
                           /\ Note(r => (p \in temps \/ qrole = "out") /\ Changeable(qrole), "renames a file it was not asked to write")
\* leaving: everything is given back
Leaves == /\ bad' = bad \cup (IF fds = NoFds THEN {} ELSE {"leaves descriptors open"}) \cup (IF temps = {} THEN {} ELSE {"leaves temporary files"})
          /\ fds' = NoFds /\ temps' = {}

\* An answer is honest if success means the outputs (and answers) of an undisturbed operation.
Honest(rc, outs, refrc, refouts) == rc = "OK" => refrc = "OK" /\ outs = refouts
Errors == {"MEMORY", "ARGS", "IO", "FORMAT", "CONFIG", "OTHER", "OVERFLOW", "PROG", "MISMATCH", "NOINSTALL"}
Answers == Errors \cup {"OK"}
=============================================================================
