-------------------------- MODULE NodesetAttrsTrace --------------------------
(* Observations of accepted specifications: [spec, ev], events              *)
(*   [k "fields", x, fs]   accessors of x: sequence of [a, t, w]            *)
(*   [k "via", n, a, x, r] accessor a of nodeset n on a node of type x:     *)
(*                         "same", "other" or "stop"                        *)
EXTENDS NodesetAttrs, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Ev == Traces[t].ev
Init == t \in DOMAIN Traces /\ l = 1 /\ S = Traces[t].spec /\ has = Own(Traces[t].spec)
\* the order of propagation does not matter (NodesetAttrsMC)
Next == IF ~Done
        THEN /\ LET c == CHOOSE c \in has \X (NodeNames(S) \cup SetNames(S)) :
                            /\ c[1].who \in SetNames(S)
                            /\ c[2] \in Directly(TheSet(S, c[1].who).expr)
                            /\ ~Knows(c[2], c[1].attr.name)
                IN Give(c[1].who, c[1].attr, c[2])
             /\ UNCHANGED <<t, l>>
        ELSE /\ l <= Len(Ev)
             /\ LET e == Ev[l] IN
                  CASE e.k = "fields" -> Ran(e.fs) = FieldsOf(S, has, e.x)
                    [] e.k = "via" -> e.r = (IF Through(S, e.n, e.x) THEN "same" ELSE "stop")
             /\ l' = l + 1
             /\ UNCHANGED <<S, has, t>>
Accepted == (Done /\ l > Len(Ev)) => PrintT(<<"ACCEPT", t>>)
Where == Done => PrintT(<<"AT", l, IF l <= Len(Ev) /\ Ev[l].k = "fields" THEN FieldsOf(S, has, Ev[l].x) ELSE {}>>)
=============================================================================
