------------------------------ MODULE AttrJudge ------------------------------
(* The verdict of AttrRules on each of the specifications of a file.        *)
EXTENDS AttrRules, TLC, Json, IOUtils
Specs == JsonDeserialize(IOEnv.TRACES)
VARIABLE t
Init == t \in DOMAIN Specs
Next == UNCHANGED t
Says == PrintT(<<"VERDICT", t, AttrVerdict(Specs[t]), AttrReasons(Specs[t])>>)
=============================================================================
