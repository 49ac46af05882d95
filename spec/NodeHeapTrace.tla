--------------------------- MODULE NodeHeapTrace ---------------------------
(* Are recorded histories of node operations behaviours of NodeHeap?        *)
(* TRACES: JSON array of [tt |-> declared types, enums |-> <<<<values>>>>, ev] *)
EXTENDS NodeHeap, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
T0 == Traces[t]
More == l <= Len(T0.ev)
E == T0.ev[l]
Init == /\ t \in DOMAIN Traces /\ l = 1
        /\ TT = Traces[t].tt
        /\ heap = [x \in {} |-> 0] /\ next = 0
\* all live nodes: contents, and who owns which string
Dump(ns, own) ==
    /\ {ns[j].id : j \in DOMAIN ns} = Live
    /\ \A j \in DOMAIN ns :
           LET h == heap[ns[j].id]
           IN ns[j].t = h.t /\ ns[j].c = h.c /\ ns[j].l = h.l /\ ns[j].s = h.s /\ ns[j].p = h.p
              /\ ns[j].pos = h.pos /\ ns[j].file = h.file
    /\ Cardinality(SetOf(own)) = Len(own)
    /\ UNCHANGED hvars
\* the null value first, then the declared values in order, all distinct
Enums(vs) == /\ \A j \in DOMAIN vs : \A a, b \in DOMAIN vs[j] : a < b => vs[j][a] < vs[j][b]
             /\ UNCHANGED hvars
Next ==
    /\ More /\ l' = l + 1 /\ UNCHANGED t
    /\ \/ E.e = "enums" /\ Enums(E.vs)
       \/ E.e = "new" /\ New(E.t, E.args, E.n)
       \/ E.e = "set" /\ SetField(E.n, E.k, E.i, E.v)
       \/ E.e = "get" /\ GetField(E.n, E.k, E.i, E.v)
       \/ E.e = "pos" /\ SetPos(E.n, E.pos, E.file)
       \/ E.e = "eval" /\ Evaluated(E.n, E.i, E.v)
       \/ E.e = "ag" /\ Result(E.n, E.i, E.v)
       \/ E.e = "copy" /\ Copy(E.n, E.r)
       \/ E.e = "free" /\ Free(E.n, E.r)
       \/ E.e = "run" /\ Run(E.n)
       \/ E.e = "live" /\ E.k = Allocated /\ UNCHANGED hvars
       \/ E.e = "dump" /\ Dump(E.ns, E.own)
       \/ E.e = "exit" /\ E.ok /\ UNCHANGED hvars
Accepted == ~More => PrintT(<<"ACCEPT", t>>)
Where == PrintT(<<"AT", l, Cardinality(DOMAIN heap)>>)
=============================================================================
