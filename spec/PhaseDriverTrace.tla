-------------------------- MODULE PhaseDriverTrace --------------------------
(* Are runs recorded from generated compilers behaviours of PhaseDriver?    *)
(* TRACES: JSON array of                                                    *)
(*  [p |-> index of the structure, max, bp |-> [id, path], ids, loose |-> BOOLEANs *)
(*   show |-> <<<<id, depth, name>>...>>, ev |-> <<event, ...>>]            *)
(* The structures are in the first element's `structs'.                     *)
EXTENDS PhaseDriver, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<pdvars, t, l>>
T == Traces[t]
More == l <= Len(T.ev)
E == T.ev[l]
Step == l' = l + 1 /\ UNCHANGED t

Init == /\ t \in DOMAIN Traces /\ l = 1
        /\ InitPD(Traces[t], Traces[t].max, Traces[t].bp)
        /\ (Traces[t].ids /\ Traces[t].show # <<>>) => Traces[t].show = Listing(P)

IdOk(id) == T.ids => id = ctl.i
Next ==
    \/ (Silent \/ SkipLeaf \/ (IF T.loose THEN EndBodyLoose ELSE EndBody)) /\ UNCHANGED <<t, l>>
    \/ /\ More /\ Step
       /\ \/ E.e = "start" /\ Start(E.in)
          \/ E.e = "gate" /\ ctl.c = "gate" /\ P[ctl.i].n = E.a /\ IdOk(E.id) /\ Gate(E.v)
          \/ E.e = "run" /\ ctl.c = "leaf" /\ P[ctl.i].n = E.a /\ IdOk(E.id) /\ tree = E.in /\ ~Gone
                /\ Leaf(E.out, E.nt /\ ~T.loose, E.pe, E.ae, IF T.loose THEN -1 ELSE E.mx)
          \/ E.e = "bp" /\ tree = E.in /\ Break
          \/ E.e = "ret" /\ Return
          \/ E.e = "exit" /\ Exit(E.ok)
          \/ E.e = "cut" /\ ctl.c \in {"leaf", "gate"} /\ ctl' = Ctl("exited", 0)
                /\ UNCHANGED <<P, stack, tree, max, bp>>
Done == ~More /\ ctl.c = "exited"
Accepted == Done => PrintT(<<"ACCEPT", t>>)
Where == PrintT(<<"AT", l, ctl>>)
=============================================================================
