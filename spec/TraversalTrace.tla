--------------------------- MODULE TraversalTrace ---------------------------
(* Are recorded traversals behaviours of Traversal?                         *)
(* TRACES: JSON array of [tt |-> <<[nodes |-> <<types>>, data |-> B]>>, ev]  *)
(* own |-> TRUE: traversal data is judged (P07), FALSE: it is ignored (P06). *)
EXTENDS Traversal, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
T0 == Traces[t]
More == l <= Len(T0.ev)
E == T0.ev[l]
SetOf(s) == {s[j] : j \in DOMAIN s}
Init == /\ t \in DOMAIN Traces /\ l = 1
        /\ TT = [j \in DOMAIN Traces[t].tt |-> [nodes |-> SetOf(Traces[t].tt[j].nodes), data |-> Traces[t].tt[j].data]]
        /\ heap = [x \in {} |-> 0] /\ stk = <<>> /\ ctl = Ctl("idle", 0)
D(x) == IF T0.own THEN x ELSE 0     \* data values as far as they are judged
\* the tree below a dumped root is what the heap says
Dump(ns) == /\ InUser
            /\ \A j \in DOMAIN ns : heap[ns[j].id] = [t |-> ns[j].t, c |-> ns[j].c, v |-> ns[j].v]
            /\ UNCHANGED tvars
Next ==
    \/ Silent /\ UNCHANGED <<t, l>>
    \/ /\ More /\ l' = l + 1 /\ UNCHANGED t
       /\ \/ E.e = "new" /\ New(E.ns)
          \/ E.e = "tstart" /\ Start(E.T, E.n)
          \/ E.e = "init" /\ Init0(E.T, D(E.d), D(E.s))
          \/ E.e = "fini" /\ Fini(E.T, D(E.d))
          \/ E.e = "tend" /\ End(E.r)
          \/ E.e = "enter" /\ Enter(E.T, E.t, E.n, D(E.d))
          \/ E.e = "kids" /\ Kids(E.n)
          \/ E.e = "kidsd" /\ KidsDone(E.n)
          \/ E.e = "desc" /\ Desc(E.n, E.i)
          \/ E.e = "descd" /\ DescDone(E.n, E.i)
          \/ E.e = "opt" /\ Opt(E.n)
          \/ E.e = "optd" /\ OptDone(E.r)
          \/ E.e = "setc" /\ SetChild(E.n, E.i, E.m)
          \/ E.e = "setv" /\ SetValue(E.n, E.v)
          \/ E.e = "setd" /\ SetData(D(E.d))
          \/ E.e = "data" /\ SeeData(E.T, D(E.d))
          \/ E.e = "leave" /\ Leave(E.n, E.r)
          \/ E.e = "dump" /\ Dump(E.ns)
          \/ E.e = "exit" /\ E.ok /\ ctl.c = "idle" /\ ctl' = Ctl("exited", 0) /\ UNCHANGED <<TT, heap, stk>>
Accepted == (~More /\ ctl.c = "exited") => PrintT(<<"ACCEPT", t>>)
Where == PrintT(<<"AT", l, ctl>>)
=============================================================================
