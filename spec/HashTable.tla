----------------------------- MODULE HashTable -----------------------------
(* palm's hash table as the finite map it promises to be, for any number of *)
(* tables and iterators at a time.  Keys are classes of equal keys, written *)
(* as strings; values are integers, 0 standing for NULL ("nothing").        *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES tab,     \* live tables: id -> the current associations
          iters    \* live iterators: id -> [t, seen, cur]

kvars == <<tab, iters>>
Ids == DOMAIN tab
Keys(t) == DOMAIN tab[t]
Get(t, k) == IF k \in Keys(t) THEN tab[t][k] ELSE 0
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Drop(m, S) == [x \in DOMAIN m \ S |-> m[x]]
Empty == [x \in {} |-> 0]
SetOf(s) == {s[j] : j \in DOMAIN s}
Idle(t) == \A i \in DOMAIN iters : iters[i].t # t
Become(t, m) == tab' = [tab EXCEPT ![t] = m] /\ UNCHANGED iters

New(t) == t \notin Ids /\ tab' = Put(tab, t, Empty) /\ UNCHANGED iters
Insert(t, k, v, r) == t \in Ids /\ r /\ Become(t, Put(tab[t], k, v))
Lookup(t, k, r) == t \in Ids /\ r = Get(t, k) /\ UNCHANGED kvars
Remove(t, k, r) == t \in Ids /\ Idle(t) /\ r = Get(t, k) /\ Become(t, Drop(tab[t], {k}))
Clear(t) == t \in Ids /\ Idle(t) /\ Become(t, Empty)
Delete(t) == t \in Ids /\ Idle(t) /\ tab' = Drop(tab, {t}) /\ UNCHANGED iters
Count(t, n) == t \in Ids /\ n = Cardinality(Keys(t)) /\ UNCHANGED kvars
Copy(t, u) == t \in Ids /\ u \notin Ids /\ tab' = Put(tab, u, tab[t]) /\ UNCHANGED iters
\* deep copies: cs says what the two functions were given and returned
OncePer(cs, S) == Len(cs) = Cardinality(S) /\ {cs[j].k : j \in DOMAIN cs} = S
DeepCopy(t, u, cs) ==
    /\ t \in Ids /\ u \notin Ids
    /\ OncePer(cs, Keys(t))
    /\ \A j \in DOMAIN cs : cs[j].v = tab[t][cs[j].k]
    /\ tab' = Put(tab, u, [k \in Keys(t) |-> LET c == CHOOSE j \in DOMAIN cs : cs[j].k = k IN cs[c].r])
    /\ UNCHANGED iters
\* functions applied to every association once; cs lists their calls
MapKeys(t, cs) ==
    /\ t \in Ids
    /\ OncePer(cs, Keys(t))
    /\ \A j \in DOMAIN cs : cs[j].v = tab[t][cs[j].k]
    /\ Become(t, [k \in Keys(t) |-> LET c == CHOOSE j \in DOMAIN cs : cs[j].k = k IN cs[c].r])
SameBag(cs, t) == /\ Len(cs) = Cardinality(Keys(t))
                  /\ \A v \in {cs[j].v : j \in DOMAIN cs} :
                         Cardinality({j \in DOMAIN cs : cs[j].v = v}) = Cardinality({k \in Keys(t) : tab[t][k] = v})
Result(cs, v) == LET c == CHOOSE j \in DOMAIN cs : cs[j].v = v IN cs[c].r
Map(t, cs) == t \in Ids /\ SameBag(cs, t) /\ Become(t, [k \in Keys(t) |-> Result(cs, tab[t][k])])
Fold(t, cs) == t \in Ids /\ SameBag(cs, t) /\ UNCHANGED kvars

\* iteration: k = "" when there is nothing (more) to visit
Step(i, t, seen, k, v) ==
    IF seen = Keys(t) THEN k = "" /\ iters' = Drop(iters, {i})
    ELSE /\ k \in Keys(t) \ seen /\ v = tab[t][k]
         /\ iters' = Put(iters, i, [t |-> t, seen |-> seen \cup {k}, cur |-> k])
Iterate(i, t, k, v) == t \in Ids /\ i \notin DOMAIN iters /\ Step(i, t, {}, k, v) /\ UNCHANGED tab
IterNext(i, k, v) == i \in DOMAIN iters /\ Step(i, iters[i].t, iters[i].seen, k, v) /\ UNCHANGED tab
IterSet(i, v) == /\ i \in DOMAIN iters
                 /\ tab' = [tab EXCEPT ![iters[i].t][iters[i].cur] = v] /\ UNCHANGED iters
IterSee(i, k, v) == /\ i \in DOMAIN iters /\ k = iters[i].cur /\ v = tab[iters[i].t][k] /\ UNCHANGED kvars
IterCancel(i) == i \in DOMAIN iters /\ iters' = Drop(iters, {i}) /\ UNCHANGED tab
=============================================================================
