------------------------------ MODULE DslJudge ------------------------------
(* The verdict of DslRules on each of the specifications of a file.         *)
EXTENDS DslRules, TLC, Json, IOUtils
Specs == JsonDeserialize(IOEnv.TRACES)
VARIABLE t
Init == t \in DOMAIN Specs
Next == UNCHANGED t
Says == PrintT(<<"VERDICT", t, Verdict(Specs[t]), Reasons(Specs[t])>>)
=============================================================================
