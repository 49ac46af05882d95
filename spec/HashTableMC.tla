---------------------------- MODULE HashTableMC ----------------------------
(* The chained table palm uses, refining the finite map of HashTable: every *)
(* hash function of a few keys into two buckets, every history of a few     *)
(* operations, with an iterator that may be interleaved with updates.       *)
EXTENDS HashTable
CONSTANTS MaxOps
K == {"a", "b", "c"}
V == {1, 2}
VARIABLES hash, bucket, count, it, ops
\* bucket[b]: chain of [k, v]; it: [b, j] position of the iterator or <<0, 0>>
cvars == <<hash, bucket, count, it, ops>>
mvars == <<tab, iters, hash, bucket, count, it, ops>>
B == {1, 2}
Pos(b, k) == {j \in DOMAIN bucket[b] : bucket[b][j].k = k}
Without(s, j) == [x \in 1..(Len(s) - 1) |-> IF x < j THEN s[x] ELSE s[x + 1]]
Init == /\ hash \in [K -> B] /\ bucket = [b \in B |-> <<>>] /\ count = 0 /\ it = <<0, 0>> /\ ops = 0
        /\ tab = Put(Empty, 1, Empty) /\ iters = Empty
Same == UNCHANGED <<hash, it>>
CIns(k, v) == LET b == hash[k] IN
    /\ IF Pos(b, k) # {} THEN LET j == CHOOSE j \in Pos(b, k) : TRUE IN
            bucket' = [bucket EXCEPT ![b][j].v = v] /\ count' = count
       ELSE bucket' = [bucket EXCEPT ![b] = Append(@, [k |-> k, v |-> v])] /\ count' = count + 1
    /\ Insert(1, k, v, TRUE) /\ Same
CFind(k) == LET b == hash[k] IN IF Pos(b, k) = {} THEN 0 ELSE bucket[b][CHOOSE j \in Pos(b, k) : TRUE].v
CGet(k) == Lookup(1, k, CFind(k)) /\ UNCHANGED <<hash, bucket, count, it>>
CRem(k) == LET b == hash[k] IN
    /\ it = <<0, 0>>
    /\ Remove(1, k, CFind(k))
    /\ IF Pos(b, k) = {} THEN UNCHANGED <<bucket, count>>
       ELSE bucket' = [bucket EXCEPT ![b] = Without(@, CHOOSE j \in Pos(b, k) : TRUE)] /\ count' = count - 1
    /\ Same
CClr == it = <<0, 0>> /\ Clear(1) /\ bucket' = [b \in B |-> <<>>] /\ count' = 0 /\ Same
\* the iterator: next in the chain, else the first of the next used bucket
After(p) == IF p[1] # 0 /\ p[2] < Len(bucket[p[1]]) THEN <<p[1], p[2] + 1>>
            ELSE LET N == {b \in B : b > p[1] /\ bucket[b] # <<>>}
                 IN IF N = {} THEN <<0, 0>> ELSE <<CHOOSE b \in N : \A c \in N : b <= c, 1>>
At(p) == IF p = <<0, 0>> THEN [k |-> "", v |-> 0] ELSE bucket[p[1]][p[2]]
\* a key added while iterating may or may not be met, so only known keys are updated then
CIter == /\ it = <<0, 0>> /\ LET p == After(<<0, 0>>) IN it' = p /\ Iterate(1, 1, At(p).k, At(p).v)
         /\ UNCHANGED <<hash, bucket, count>>
CNext == /\ it # <<0, 0>> /\ LET p == After(it) IN it' = p /\ IterNext(1, At(p).k, At(p).v)
         /\ UNCHANGED <<hash, bucket, count>>
CSet(v) == /\ it # <<0, 0>> /\ IterSet(1, v) /\ bucket' = [bucket EXCEPT ![it[1]][it[2]].v = v]
           /\ UNCHANGED <<hash, it, count>>
CCancel == it # <<0, 0>> /\ IterCancel(1) /\ it' = <<0, 0>> /\ UNCHANGED <<hash, bucket, count>>
Ops == \/ \E k \in K, v \in V : (it = <<0, 0>> \/ k \in Keys(1)) /\ CIns(k, v)
       \/ \E k \in K : CGet(k) \/ CRem(k)
       \/ CClr \/ CIter \/ CNext \/ CCancel \/ \E v \in V : CSet(v)
Next == Ops /\ ops' = ops + 1
Spec == Init /\ [][Next]_mvars
Bound == ops < MaxOps
\* refinement: the chains hold exactly the map, the counter its size
Refines == /\ \A k \in K : CFind(k) = Get(1, k)
           /\ count = Cardinality(Keys(1))
           /\ \A b \in B : \A j \in DOMAIN bucket[b] : hash[bucket[b][j].k] = b /\ Cardinality(Pos(b, bucket[b][j].k)) = 1
\* an operation the concrete table can do is one the map allows
NoStuck == /\ \A k \in K : ENABLED CGet(k) /\ (it = <<0, 0>> => ENABLED CRem(k))
           /\ (it = <<0, 0>> => ENABLED CIter) /\ (it # <<0, 0>> => ENABLED CNext)
=============================================================================
