--------------------------- MODULE LifetimesTrace ---------------------------
(* Are runs with consistency checking behaviours of Lifetimes?              *)
EXTENDS Lifetimes, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<pdvars, decl, checking, t, l>>
T == Traces[t]
More == l <= Len(T.ev)
E == T.ev[l]
Step == l' = l + 1 /\ UNCHANGED t

Init == /\ t \in DOMAIN Traces /\ l = 1
        /\ InitPD(Traces[t], 100, [id |-> 0, path |-> <<>>])
        /\ decl = Traces[t].decl /\ checking = Traces[t].check

Bad == ctl.c = "disp" /\ checking /\ ~Consistent(P, T.uids, decl, tree, ctl.i)
Abort == Bad /\ ctl' = Ctl("fail", 0) /\ UNCHANGED <<P, stack, tree, max, bp>>
CheckedDispatch == ~Bad /\ Dispatch

Next ==
    \/ (Abort \/ CheckedDispatch \/ Body \/ After \/ EndBodyLoose) /\ UNCHANGED <<t, l, decl, checking>>
    \/ /\ More /\ Step /\ UNCHANGED <<decl, checking>>
       /\ \/ E.e = "start" /\ Start(E.tree)
          \/ E.e = "gate" /\ ctl.c = "gate" /\ P[ctl.i].n = E.a /\ Gate(E.v)
          \/ E.e = "run" /\ ctl.c = "leaf" /\ P[ctl.i].n = E.a /\ Leaf(E.tree, FALSE, FALSE, FALSE, -1)
          \/ E.e = "ret" /\ Return
          \/ E.e = "exit" /\ Exit(E.ok)
          \/ E.e = "cut" /\ ctl.c \in {"leaf", "gate"} /\ ctl' = Ctl("exited", 0)
                /\ UNCHANGED <<P, stack, tree, max, bp>>
Done == ~More /\ ctl.c = "exited"
Accepted == Done => PrintT(<<"ACCEPT", t>>)
Where == PrintT(<<"AT", l, ctl>>)
=============================================================================
