--------------------------- MODULE GeneratedTrace ---------------------------
EXTENDS Generated, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Init == t \in DOMAIN Traces /\ l = 0
\* functions of the user with one name and different uses cannot be written
Next == l = 0 /\ Unambiguous(Traces[t].spec) /\ Wrong(Traces[t].spec, Traces[t].obs) = {} /\ l' = 1 /\ UNCHANGED t
Accepted == l = 1 => PrintT(<<"ACCEPT", t>>)
Where == l = 0 => PrintT(<<"AT", Wrong(Traces[t].spec, Traces[t].obs)>>)
=============================================================================
