----------------------------- MODULE AccessTrace -----------------------------
(* Programs run against generated code: [spec, runs], a run is a sequence   *)
(* of operations performed, the last one perhaps stopped, with the end:     *)
(* [ops |-> <<[k, ...], ...>>, end |-> [w, o, a, here]]                     *)
EXTENDS Access, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, r, l
Runs == Traces[t].runs
Init == t \in DOMAIN Traces /\ r = 1 /\ l = 1 /\ S = Traces[t].spec /\ obj = <<>> /\ run = Going
Ops == Runs[r].ops
Step == CASE Ops[l].k = "new" -> New(Ops[l].t)
          [] Ops[l].k = "attach" -> Attach(Ops[l].n, Ops[l].a, Ops[l].m)
          [] Ops[l].k = "use" -> Access(Ops[l].o, Ops[l].a, Ops[l].n)
          [] Ops[l].k = "visit" -> Visit(Ops[l].a, Ops[l].n)
          [] Ops[l].k = "eval" -> Evaluate(Ops[l].n) \/ Refuse(Ops[l].n)
          [] Ops[l].k = "copy" -> Copy(Ops[l].n)
Next == /\ r <= Len(Runs)
        /\ \/ l <= Len(Ops) /\ Step /\ l' = l + 1 /\ UNCHANGED <<t, r>>
           \/ /\ l > Len(Ops) /\ run = Runs[r].end
              /\ r' = r + 1 /\ l' = 1 /\ obj' = <<>> /\ run' = Going /\ UNCHANGED <<S, t>>
Accepted == r > Len(Runs) => PrintT(<<"ACCEPT", t>>)
Where == r <= Len(Runs) => PrintT(<<"AT", r * 1000 + l, run>>)
=============================================================================
