------------------------------ MODULE NodeHeap ------------------------------
(* The nodes of a compiler built by CoCoNut: construction, fields, copying  *)
(* and releasing.  A node owns the nodes in its children, its strings and   *)
(* its file name; links only point.  Values are strings so that every       *)
(* integer width and every enumeration fits; "-" is an absent string.       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

VARIABLES TT,      \* the declared types, see Field
          heap,    \* live nodes: id -> Node
          next     \* ids handed out so far

hvars == <<TT, heap, next>>

\* TT[t] = [nc, nl, ns, na |-> number of children, links, strings, attribute
\* grammar results, pd |-> defaults of the plain attributes in order,
\* order |-> constructor parameters as [k, i] with k in c l s p,
\* cost |-> allocations of a bare node]
Node(t, c, l, s, p, a, pos, file) ==
    [t |-> t, c |-> c, l |-> l, s |-> s, p |-> p, a |-> a, pos |-> pos, file |-> file]

NoPos == <<0, 0, 0, 0>>
\* the argument for field i of kind k, or the default
Arg(t, args, k, i, dflt) ==
    LET J == {j \in DOMAIN TT[t].order : TT[t].order[j].k = k /\ TT[t].order[j].i = i}
    IN IF J = {} THEN dflt
       ELSE LET a == args[CHOOSE j \in J : TRUE] IN IF k \in {"c", "l"} THEN a.n ELSE a.s
Built(t, args) ==
    Node(t, [i \in 1..TT[t].nc |-> Arg(t, args, "c", i, 0)], [i \in 1..TT[t].nl |-> Arg(t, args, "l", i, 0)],
         [i \in 1..TT[t].ns |-> Arg(t, args, "s", i, "-")],
         [i \in 1..Len(TT[t].pd) |-> Arg(t, args, "p", i, TT[t].pd[i])],
         [i \in 1..TT[t].na |-> "unset"], NoPos, "-")

Live == DOMAIN heap
\* the nodes of a tree, parents first, children in order
RECURSIVE Pre(_), PreSeq(_)
PreSeq(cs) == IF cs = <<>> THEN <<>> ELSE Pre(Head(cs)) \o PreSeq(Tail(cs))
Pre(n) == IF n = 0 THEN <<>> ELSE <<n>> \o PreSeq(heap[n].c)
SetOf(s) == {s[j] : j \in DOMAIN s}
Tree(n) == SetOf(Pre(n))
Remove(S) == [x \in Live \ S |-> heap[x]]

Owned(n) == Cardinality({i \in DOMAIN heap[n].s : heap[n].s[i] # "-"}) + (IF heap[n].file # "-" THEN 1 ELSE 0)
\* everything allocated for live nodes
Sum(S) == FoldSet(LAMBDA n, acc : acc + TT[heap[n].t].cost + Owned(n), 0, S)
Allocated == Sum(Live)

New(t, args, n) ==
    /\ n = next + 1
    /\ Len(args) = Len(TT[t].order)
    /\ heap' = [x \in Live \cup {n} |-> IF x = n THEN Built(t, args) ELSE heap[x]]
    /\ next' = n /\ UNCHANGED TT
SetField(n, k, i, v) ==
    /\ n \in Live
    /\ heap' = [heap EXCEPT ![n] = CASE k = "c" -> [@ EXCEPT !.c[i] = v.n]
                                     [] k = "l" -> [@ EXCEPT !.l[i] = v.n]
                                     [] k = "s" -> [@ EXCEPT !.s[i] = v.s]
                                     [] k = "p" -> [@ EXCEPT !.p[i] = v.s]]
    /\ UNCHANGED <<TT, next>>
GetField(n, k, i, v) ==
    /\ n \in Live
    /\ CASE k = "c" -> heap[n].c[i] = v.n
         [] k = "l" -> heap[n].l[i] = v.n
         [] k = "s" -> heap[n].s[i] = v.s
         [] k = "p" -> heap[n].p[i] = v.s
    /\ UNCHANGED hvars
SetPos(n, pos, file) ==
    n \in Live /\ heap' = [heap EXCEPT ![n].pos = pos, ![n].file = file] /\ UNCHANGED <<TT, next>>
\* an evaluated attribute of the grammar
Evaluated(n, i, v) == n \in Live /\ heap' = [heap EXCEPT ![n].a[i] = v] /\ UNCHANGED <<TT, next>>
Result(n, i, v) == n \in Live /\ heap[n].a[i] = v /\ UNCHANGED hvars

\* the copy of the tree at n, whose nodes are numbered like the original's
CopyOf(pre) ==
    LET new(m) == IF m = 0 THEN 0 ELSE next + (CHOOSE j \in DOMAIN pre : pre[j] = m)
    IN [x \in Live \cup {next + j : j \in DOMAIN pre} |->
            IF x \in Live THEN heap[x]
            ELSE LET o == heap[pre[x - next]]
                 IN [o EXCEPT !.c = [i \in DOMAIN o.c |-> new(o.c[i])],
                              !.a = [i \in DOMAIN o.a |-> "unset"]]]
Copy(n, r) ==
    /\ n = 0 \/ n \in Live
    /\ r = IF n = 0 THEN 0 ELSE next + 1
    /\ LET pre == Pre(n) IN heap' = CopyOf(pre) /\ next' = next + Len(pre)
    /\ UNCHANGED TT
Free(n, r) ==
    /\ n = 0 \/ n \in Live
    /\ r = 0
    /\ heap' = Remove(Tree(n))
    /\ UNCHANGED <<TT, next>>
\* a run whose actions hand on the tree they get
Run(n) == n \in Live /\ heap' = Remove(Tree(n)) /\ UNCHANGED <<TT, next>>
=============================================================================
