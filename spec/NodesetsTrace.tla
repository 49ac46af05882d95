--------------------------- MODULE NodesetsTrace ---------------------------
(* Observations of one system: [sys, ev] with events [k |-> "outcome", ok], *)
(* [k |-> "admitted", n, ns] and [k |-> "handled", n, ns], ns sequences of  *)
(* names of node types (those observed to be let in, or handled).           *)
EXTENDS Nodesets, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Ev == Traces[t].ev
Init == t \in DOMAIN Traces /\ l = 1 /\ sys = Traces[t].sys /\ val = <<>>
\* the order does not matter (NodesetsMC), so one is enough
Next == IF ~Stuck
        THEN /\ Resolve(CHOOSE n \in Names : Ready(n))
             /\ UNCHANGED <<t, l>>
        ELSE /\ l <= Len(Ev)
             /\ LET e == Ev[l] IN
                  CASE e.k = "outcome" -> e.ok = Accepts
                    [] e.k = "admitted" -> Accepts /\ Ran(e.ns) = Admitted(e.n)
                    [] e.k = "handled" -> Accepts /\ Ran(e.ns) = Handled(e.n)
             /\ l' = l + 1
             /\ UNCHANGED <<sys, val, t>>
Accepted == (Stuck /\ l > Len(Ev)) => PrintT(<<"ACCEPT", t>>)
Where == Stuck => PrintT(<<"AT", l, val>>)
=============================================================================
