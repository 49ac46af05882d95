---------------------------- MODULE TraversalMC ----------------------------
(* All trees of up to MaxN nodes over two types, all target sets, user       *)
(* functions that descend, start nested traversals, replace nodes and use    *)
(* traversal data in every way within the bounds.                            *)
EXTENDS Traversal, TLC
CONSTANTS MaxN, MaxOps, MaxDepth, Modes

VARIABLES hist,   \* entered nodes of the outermost traversal, in order
          ops,    \* user operations so far
          ghost,  \* what the data of each active traversal should be (bottom first)
          orig,   \* the heap at the start
          inits, finis,  \* initialiser / finaliser calls
          kd,     \* nodes whose function has descended into all children
          mode    \* "free": anything; "all": functions only descend into all children;
                  \* "leaf": functions descend nowhere; "data": nested traversals and data
vars == <<tvars, hist, ops, ghost, orig, inits, finis, kd, mode>>

\* trees: node 1 is the root, children come later, every other node has one parent
Shapes == UNION {{f \in [2..n -> 1..n] : \A x \in 2..n : f[x] < x} : n \in 1..MaxN}
Size(f) == Cardinality(DOMAIN f) + 1
ChildSet(f, x) == {y \in DOMAIN f : f[y] = x}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o SeqOf(S \ {m})
\* absent children: a 0 is put in front of the children of some nodes
Heap(f, ty, hole) == [x \in 1..Size(f) |-> [t |-> ty[x], c |-> (IF hole = x THEN <<0>> ELSE <<>>) \o SeqOf(ChildSet(f, x)), v |-> 0]]

Init == /\ \E f \in Shapes : \E ty \in [1..Size(f) -> {1, 2}], hole \in 0..1 : heap = Heap(f, ty, hole)
        /\ \E n1 \in SUBSET {1, 2}, n2 \in {{}, {1}, {1, 2}}, d1, d2 \in BOOLEAN :
             TT = <<[nodes |-> n1, data |-> d1], [nodes |-> n2, data |-> d2]>>
        /\ mode \in Modes
        /\ mode # "data" => ~TT[1].data /\ ~TT[2].data
        /\ mode \in {"all", "leaf"} => TT[2].nodes = {}
        /\ stk = <<>> /\ ctl = Ctl("idle", 0) /\ hist = <<>> /\ ops = 0 /\ ghost = <<>> /\ orig = heap
        /\ inits = 0 /\ finis = 0 /\ kd = {}

Depth == Cardinality(Travs)
Bounded == ops < MaxOps /\ ops' = ops + 1
Free == mode = "free"
NextFresh == 1 + CHOOSE m \in DOMAIN heap : \A x \in DOMAIN heap : x <= m
Next ==
  /\ UNCHANGED <<orig, mode>>
  /\ \/ Silent /\ UNCHANGED <<hist, ops, ghost, inits, finis>>
     \/ /\ stk = <<>> /\ hist = <<>> /\ ops = 0 /\ Start(1, 1) /\ ghost' = <<0>> /\ ops' = 1 /\ UNCHANGED <<hist, inits, finis>>
     \/ \E s \in {0, 1} : Init0(Cur, Top.d, s) /\ ghost' = [ghost EXCEPT ![Len(ghost)] = s]
            /\ inits' = inits + 1 /\ UNCHANGED <<hist, ops, finis>>
     \/ Fini(Top.n, Top.d) /\ finis' = finis + 1 /\ UNCHANGED <<hist, ops, ghost, inits>>
     \/ End(ctl.n) /\ ghost' = SubSeq(ghost, 1, Len(ghost) - 1) /\ UNCHANGED <<hist, ops, inits, finis>>
     \/ /\ ctl.c = "visit" /\ ctl.n # 0 /\ Enter(Cur, heap[ctl.n].t, ctl.n, stk[CurJ].d)
        /\ hist' = (IF Depth = 1 THEN Append(hist, ctl.n) ELSE hist) /\ UNCHANGED <<ops, ghost, inits, finis>>
     \/ /\ ctl.c = "user" /\ UNCHANGED <<inits, finis>>
        /\ \/ mode = "all" /\ Top.n \notin kd /\ Kids(Top.n) /\ UNCHANGED <<hist, ghost, ops>>
           \/ mode \in {"free", "data"} /\ Bounded /\ Kids(Top.n) /\ UNCHANGED <<hist, ghost>>
           \/ Free /\ Bounded /\ \E i \in DOMAIN heap[Top.n].c : Desc(Top.n, i) /\ UNCHANGED <<hist, ghost>>
           \/ mode = "data" /\ Bounded /\ Depth < MaxDepth /\ \E T \in {1, 2} : Start(T, Top.n)
                /\ ghost' = Append(ghost, 0) /\ UNCHANGED hist
           \/ mode = "data" /\ Bounded /\ \E d \in {1, 2} : SetData(d)
                /\ ghost' = [ghost EXCEPT ![Len(ghost)] = d] /\ UNCHANGED hist
           \/ Free /\ Bounded /\ New(<<[id |-> NextFresh, t |-> heap[Top.n].t, c |-> heap[Top.n].c, v |-> 7]>>) /\ UNCHANGED <<hist, ghost>>
           \/ /\ (mode = "all" => Top.n \in kd)
              /\ \E r \in (IF Free THEN {Top.n, NextFresh - 1, 0} ELSE {Top.n}) : Leave(Top.n, r)
              /\ UNCHANGED <<hist, ops, ghost>>
     \/ ctl.c = "kid" /\ Top.k = "kids" /\ KidsDone(Top.n) /\ UNCHANGED <<hist, ops, ghost, inits, finis>>
     \/ ctl.c = "ret" /\ Top.k = "desc" /\ DescDone(Top.n, Top.i) /\ UNCHANGED <<hist, ops, ghost, inits, finis>>
  /\ kd' = IF ctl.c = "user" /\ ctl'.c = "kid" THEN kd \cup {Top.n} ELSE kd
Spec == Init /\ [][Next]_vars
Bound == Len(stk) <= 14 /\ Len(hist) <= 6

\* ---- properties ----------------------------------------------------------
RECURSIVE Pre(_, _), PreAll(_, _)
Pre(h, n) == IF n = 0 THEN <<>> ELSE <<n>> \o PreAll(h, h[n].c)
PreAll(h, s) == IF s = <<>> THEN <<>> ELSE Pre(h, Head(s)) \o PreAll(h, Tail(s))
IsTarget(n) == orig[n].t \in TT[1].nodes
RECURSIVE PreTop(_), PreTopAll(_)   \* targeted nodes not below a targeted one
PreTop(n) == IF n = 0 THEN <<>> ELSE IF IsTarget(n) THEN <<n>> ELSE PreTopAll(orig[n].c)
PreTopAll(s) == IF s = <<>> THEN <<>> ELSE PreTop(Head(s)) \o PreTopAll(Tail(s))
Ended == ctl.c = "idle" /\ ops > 0
\* functions that do nothing: exactly the topmost targets, in tree order, once each
LeafMode == mode = "leaf" /\ Ended => hist = PreTop(1)
\* functions that descend everywhere: all targets
AllMode == mode = "all" /\ Ended => hist = SelectSeq(Pre(orig, 1), IsTarget)
\* the order is the tree's, each node at most once, and only targets are entered
InTreeOrder == mode \in {"leaf", "all"} =>
    \A i, j \in DOMAIN hist : i < j =>
        \E a, b \in DOMAIN Pre(orig, 1) : Pre(orig, 1)[a] = hist[i] /\ Pre(orig, 1)[b] = hist[j] /\ a < b
OnlyTargets == \A i \in DOMAIN hist : heap[hist[i]].t \in TT[1].nodes
\* topmost targets are reached whatever the functions do, unless they replace their way there
Reached == Ended /\ mode # "free" => \A i \in DOMAIN PreTop(1) : \E j \in DOMAIN hist : hist[j] = PreTop(1)[i]
\* nothing but a function's own replacement changes a tree
Untouched == mode \in {"leaf", "all", "data"} => heap = orig
NotTargeted == \A n \in DOMAIN orig : heap[n].v = orig[n].v /\ heap[n].t = orig[n].t
\* private data, fresh at the start, intact until the end
DataOk == LET js == Travs IN
    \A j \in js : stk[j].d = ghost[Cardinality({m \in js : m <= j})]
FreshAtInit == ctl.c = "init" => Top.d = 0
Paired == inits >= finis /\ (Ended => inits = finis)
=============================================================================
