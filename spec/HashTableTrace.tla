--------------------------- MODULE HashTableTrace ---------------------------
(* Are recorded histories of palm's hash tables behaviours of HashTable?    *)
EXTENDS HashTable, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
T0 == Traces[t]
More == l <= Len(T0.ev)
E == T0.ev[l]
Init == t \in DOMAIN Traces /\ l = 1 /\ tab = Empty /\ iters = Empty
Next ==
    /\ More /\ l' = l + 1 /\ UNCHANGED t
    /\ \/ E.e = "new" /\ New(E.t)
       \/ E.e = "ins" /\ Insert(E.t, E.k, E.v, E.r)
       \/ E.e = "get" /\ Lookup(E.t, E.k, E.r)
       \/ E.e = "rem" /\ Remove(E.t, E.k, E.r)
       \/ E.e = "clr" /\ Clear(E.t)
       \/ E.e = "del" /\ Delete(E.t)
       \/ E.e = "cnt" /\ Count(E.t, E.n)
       \/ E.e = "cpy" /\ Copy(E.t, E.u)
       \/ E.e = "dcpy" /\ DeepCopy(E.t, E.u, E.cs)
       \/ E.e = "mapk" /\ MapKeys(E.t, E.cs)
       \/ E.e = "map" /\ Map(E.t, E.cs)
       \/ E.e = "fold" /\ Fold(E.t, E.cs)
       \/ E.e = "it" /\ Iterate(E.i, E.t, E.k, E.v)
       \/ E.e = "itn" /\ IterNext(E.i, E.k, E.v)
       \/ E.e = "its" /\ IterSet(E.i, E.v)
       \/ E.e = "itv" /\ IterSee(E.i, E.k, E.v)
       \/ E.e = "itc" /\ IterCancel(E.i)
       \/ E.e = "exit" /\ E.ok /\ UNCHANGED kvars
Accepted == ~More => PrintT(<<"ACCEPT", t>>)
Where == PrintT(<<"AT", l, 0>>)
=============================================================================
