------------------------------- MODULE Output -------------------------------
(* Generating code into a directory when operations on files may fail (P22): *)
(* success is reported only when every file of the code is there, entirely.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES want,   \* the code of the specification: [path |-> length]
          disk,   \* the files: [path |-> length]
          hurt,   \* has an operation failed?
          ended   \* "" or how it ended

Live == ended = ""
Fail == Live /\ hurt' = TRUE /\ UNCHANGED <<want, disk, ended>>
Same == Live /\ UNCHANGED <<want, disk, hurt, ended>>
Put(p, n) == disk' = [q \in DOMAIN disk \cup {p} |-> IF q = p THEN n ELSE disk[q]]
Drop(P) == [q \in DOMAIN disk \ P |-> disk[q]]

\* p is opened for writing, its old contents thrown away (cut) or not
Open(p, cut) == /\ Live /\ Put(p, IF cut \/ p \notin DOMAIN disk THEN 0 ELSE disk[p])
                /\ UNCHANGED <<want, hurt, ended>>
\* n bytes go to the end of p (all of a request, or a part of it)
Write(p, n) == Live /\ p \in DOMAIN disk /\ Put(p, disk[p] + n) /\ UNCHANGED <<want, hurt, ended>>
Rename(p, q) == /\ Live /\ p \in DOMAIN disk /\ UNCHANGED <<want, hurt, ended>>
                /\ disk' = [x \in (DOMAIN disk \ {p}) \cup {q} |-> IF x = q THEN disk[p] ELSE disk[x]]
Remove(p) == Live /\ disk' = Drop({p}) /\ UNCHANGED <<want, hurt, ended>>

Complete == \A p \in DOMAIN want : p \in DOMAIN disk /\ disk[p] = want[p]
Succeed == Live /\ Complete /\ ended' = "done" /\ UNCHANGED <<want, disk, hurt>>
GiveUp == Live /\ hurt /\ ended' = "failed" /\ UNCHANGED <<want, disk, hurt>>
=============================================================================
