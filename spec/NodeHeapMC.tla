----------------------------- MODULE NodeHeapMC -----------------------------
(* All histories of a few operations on one small type, with the guarantees *)
(* of P08 to P10 stated independently of how the actions compute them.      *)
EXTENDS NodeHeap
CONSTANTS MaxN, MaxOps
VARIABLES ops, last      \* operations so far, the last one
mvars == <<TT, heap, next, ops, last>>

\* type 1: two children (the second a constructor argument), one link, one
\* string, one plain attribute (argument) and one grammar result;
\* type 2: a leaf with a string argument
Types == << [nc |-> 2, nl |-> 1, ns |-> 1, na |-> 1, pd |-> <<"0">>, cost |-> 2,
             order |-> <<[k |-> "c", i |-> 2], [k |-> "p", i |-> 1]>>],
            [nc |-> 0, nl |-> 0, ns |-> 1, na |-> 0, pd |-> <<>>, cost |-> 2,
             order |-> <<[k |-> "s", i |-> 1]>>] >>
Nr(n) == [n |-> n, s |-> ""]
St(s) == [n |-> 0, s |-> s]
Parents(n) == {m \in Live : n \in SetOf(heap[m].c)}
Roots == {n \in Live : Parents(n) = {}}
RECURSIVE RootOf(_)
RootOf(n) == IF Parents(n) = {} THEN n ELSE RootOf(CHOOSE m \in Parents(n) : TRUE)

Init == TT = Types /\ heap = [x \in {} |-> 0] /\ next = 0 /\ ops = 0 /\ last = [op |-> "none"]
Do(o) == ops' = ops + 1 /\ last' = o
DoNew == \/ \E c \in {0} \cup Roots : \E p \in {"0", "7"} :
                LET a == <<Nr(c), St(p)>> IN New(1, a, next + 1) /\ Do([op |-> "new", n |-> next + 1, t |-> 1, a |-> a])
         \/ \E s \in {"-", "s:x"} : LET a == <<St(s)>> IN New(2, a, next + 1) /\ Do([op |-> "new", n |-> next + 1, t |-> 2, a |-> a])
DoSet == \E n \in Live :
    \/ heap[n].t = 1 /\ \E i \in 1..2 : \E c \in {0} \cup (Roots \ {RootOf(n)}) :
           SetField(n, "c", i, Nr(c)) /\ Do([op |-> "set", n |-> n, k |-> "c", i |-> i])
    \/ heap[n].t = 1 /\ \E m \in {0} \cup Live : SetField(n, "l", 1, Nr(m)) /\ Do([op |-> "set", n |-> n, k |-> "l", i |-> 1])
    \/ \E s \in {"-", "s:y"} : SetField(n, "s", 1, St(s)) /\ Do([op |-> "set", n |-> n, k |-> "s", i |-> 1])
    \/ heap[n].t = 1 /\ SetField(n, "p", 1, St("8")) /\ Do([op |-> "set", n |-> n, k |-> "p", i |-> 1])
    \/ heap[n].file = "-" /\ SetPos(n, <<1, 2, 3, 4>>, "s:f") /\ Do([op |-> "pos", n |-> n])
    \/ heap[n].t = 1 /\ heap[n].a[1] = "unset" /\ Evaluated(n, 1, "v") /\ Do([op |-> "eval", n |-> n])
DoCopy == \E n \in Live : Copy(n, next + 1) /\ Do([op |-> "copy", n |-> n])
\* a released node has been taken out of its parent
DoFree == \E n \in Roots : Free(n, 0) /\ Do([op |-> "free", n |-> n])
Next == DoNew \/ DoSet \/ DoCopy \/ DoFree
Spec == Init /\ [][Next]_mvars
Bound == Cardinality(Live) <= MaxN /\ ops < MaxOps

\* children are live and owned once
Forest == \A n \in Live : \A i \in DOMAIN heap[n].c :
              heap[n].c[i] # 0 => heap[n].c[i] \in Live /\ Cardinality(Parents(heap[n].c[i])) = 1
Counted == Allocated >= 2 * Cardinality(Live)
\* copying: walking both trees in step meets equal nodes, all new
RECURSIVE Same(_, _, _, _)
Same(h1, a, h2, b) ==
    IF a = 0 \/ b = 0 THEN a = b
    ELSE /\ h1[a].t = h2[b].t /\ h1[a].l = h2[b].l /\ h1[a].s = h2[b].s /\ h1[a].p = h2[b].p
         /\ h1[a].pos = h2[b].pos /\ h1[a].file = h2[b].file
         /\ \A i \in DOMAIN h2[b].a : h2[b].a[i] = "unset"
         /\ \A i \in DOMAIN h1[a].c : Same(h1, h1[a].c[i], h2, h2[b].c[i])
CopyEqual == [][last'.op = "copy" => Same(heap, last'.n, heap', next + 1)]_mvars
CopyFresh == [][last'.op = "copy" =>
                  /\ DOMAIN heap' \ Live = next + 1 .. next'
                  /\ Cardinality(DOMAIN heap' \ Live) = Cardinality(Tree(last'.n))
                  /\ \A n \in DOMAIN heap' \ Live : SetOf(heap'[n].c) \subseteq {0} \cup (DOMAIN heap' \ Live)]_mvars
\* what an operation is not about stays
OthersKept == [][\A n \in Live : n \in DOMAIN heap' =>
                    (heap'[n] = heap[n] \/ (last'.op \in {"set", "pos", "eval"} /\ last'.n = n))]_mvars
\* releasing: exactly the nodes from which the released one is an ancestor
Below(n, m) == RootOf(m) = n
FreeExact == [][last'.op = "free" =>
                  /\ Live \ DOMAIN heap' = {m \in Live : Below(last'.n, m)}
                  /\ Allocated' = Allocated - Sum({m \in Live : Below(last'.n, m)})]_mvars
OneField == [][last'.op = "set" =>
                 LET a == heap[last'.n] b == heap'[last'.n] IN
                 /\ (last'.k # "c" => a.c = b.c) /\ (last'.k # "l" => a.l = b.l)
                 /\ (last'.k # "s" => a.s = b.s) /\ (last'.k # "p" => a.p = b.p)
                 /\ (last'.k = "c" => a.c[3 - last'.i] = b.c[3 - last'.i])]_mvars
NewAsDeclared == [][last'.op = "new" =>
                      LET b == heap'[last'.n] IN
                      IF last'.t = 1 THEN /\ b.c = <<0, last'.a[1].n>> /\ b.l = <<0>> /\ b.s = <<"-">>
                                          /\ b.p = <<last'.a[2].s>>
                      ELSE b.s = <<last'.a[1].s>> /\ b.c = <<>>]_mvars
=============================================================================
