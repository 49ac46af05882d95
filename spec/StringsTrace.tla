---------------------------- MODULE StringsTrace ----------------------------
(* Are recorded sequences of calls of palm's string helpers behaviours of   *)
(* Strings?  `kept` says that no argument was modified and the result is a   *)
(* string of its own.                                                        *)
EXTENDS Strings, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
T0 == Traces[t]
More == l <= Len(T0.ev)
E == T0.ev[l]
Init == t \in DOMAIN Traces /\ l = 1 /\ TokInit
Next ==
    /\ More /\ l' = l + 1 /\ UNCHANGED t
    /\ CASE E.e = "call" -> E.kept /\ Call(E.f, E.s, E.n, E.r)
         [] E.e = "tok" -> E.kept /\ Tok(E.s[1], E.s[2], E.r)
         [] E.e = "exit" -> E.ok /\ UNCHANGED left
         [] OTHER -> FALSE /\ UNCHANGED left
Accepted == ~More => PrintT(<<"ACCEPT", t>>)
Where == PrintT(<<"AT", l, left>>)
=============================================================================
