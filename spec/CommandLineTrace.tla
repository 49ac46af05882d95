-------------------------- MODULE CommandLineTrace --------------------------
(* Invocations: [world |-> [path |-> kind], runs |-> <<[args, obs], ...>>]    *)
EXTENDS CommandLine, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, r, st
Runs == Traces[t].runs
Init == t \in DOMAIN Traces /\ r = 1 /\ st = Begin(Traces[t].runs[1].args)
Ran(s) == {s[i] : i \in DOMAIN s}
Obs == [Runs[r].obs EXCEPT !.touched = Ran(@), !.code = Ran(@)]
Next == /\ r <= Len(Runs)
        /\ IF st.out = "reading" THEN st' = Step(st) /\ UNCHANGED <<t, r>>
           ELSE /\ Fits(st, Traces[t].world, Obs)
                /\ r' = r + 1 /\ UNCHANGED t
                /\ st' = IF r < Len(Runs) THEN Begin(Runs[r + 1].args) ELSE st
Accepted == r > Len(Runs) => PrintT(<<"ACCEPT", t>>)
Where == r <= Len(Runs) /\ st.out # "reading" => PrintT(<<"AT", r, st.out, Comes(st, Traces[t].world)>>)
=============================================================================
