---------------------------- MODULE GeneratedFns ----------------------------
(* Writes the functions of every specification for the harness, and whether *)
(* their names tell them apart.                                             *)
EXTENDS Generated, Json, IOUtils
Specs == JsonDeserialize(IOEnv.TRACES)
VARIABLE t
Init == t = JsonSerialize(IOEnv.OUT, [i \in DOMAIN Specs |-> [fns |-> SetToSeq(Functions(Specs[i])), clear |-> Unambiguous(Specs[i])]])
Next == FALSE /\ UNCHANGED t
=============================================================================
