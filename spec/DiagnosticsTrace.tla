-------------------------- MODULE DiagnosticsTrace --------------------------
(* Are recorded uses of palm's messages behaviours of Diagnostics?          *)
EXTENDS Diagnostics, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, how
T0 == Traces[t]
More == l <= Len(T0.ev)
E == T0.ev[l]
TInit == t \in DOMAIN Traces /\ l = 1 /\ how = "" /\ Init
Next ==
    /\ More /\ l' = l + 1 /\ UNCHANGED t
    /\ CASE E.e = "msg" -> Message(E.type, E.words, E.o, E.out, E.under, E.width) /\ UNCHANGED how
         [] E.e = "cnt" -> Counts(E.errors, E.warnings) /\ UNCHANGED how
         [] E.e = "aoe" -> AbortOnError /\ how' = E.e
         [] E.e = "abort" -> Abort /\ how' = E.e
         [] E.e = "oom" -> OutOfMemory /\ how' = E.e
         [] E.e = "segv" -> Crash /\ how' = E.e
         [] E.e = "cont" -> Continue /\ UNCHANGED how
         [] E.e = "end" -> End(E.code, E.out, ~Running /\ how \in {"aoe", "abort", "oom"}) /\ UNCHANGED how
         [] OTHER -> FALSE /\ UNCHANGED <<errors, warnings, mode, how>>
Accepted == ~More => PrintT(<<"ACCEPT", t>>)
Where == PrintT(<<"AT", l, dvars>>)
=============================================================================
