--------------------------- MODULE AttrGrammarMC ---------------------------
(* All grammars with a root r with one child c of type x, and x with the    *)
(* children Kids of its own type and the attributes i (inherited), s and t  *)
(* (synthesized), over all sets of arguments; all trees up to a depth; all  *)
(* orders of evaluation.                                                    *)
EXTENDS AttrGrammar, TLC
CONSTANTS Kids,     \* number of children of x, 0 to 2
          Depth,    \* of the trees used to look for circles
          Deep,     \* of the trees that are evaluated
          Eval      \* whether trees are evaluated

VARIABLES stage, args, tree, val
vars == <<stage, args, tree, val>>

Attr(n, inh) == [name |-> n, kind |-> "prim", ref |-> "int", ctor |-> FALSE, inh |-> inh, syn |-> ~inh, lts |-> <<>>]
Always == <<[kind |-> "mandatory", lo |-> <<>>, hi |-> <<>>]>>
Child(n, lts) == [name |-> n, type |-> "x", lts |-> lts]
KidNames == <<"d", "e">>
Arg(w, a) == [who |-> w, attr |-> a]
Slots == <<"ci", "di", "ei", "s", "t">>
Pool(k) ==
    CASE k = "ci" -> {Arg("c", "s"), Arg("c", "t")}
      [] k = "di" -> IF Kids = 0 THEN {} ELSE {Arg("", "i"), Arg("d", "s")} \cup (IF Kids = 1 THEN {Arg("d", "t")} ELSE {Arg("e", "t")})
      [] k = "ei" -> IF Kids < 2 THEN {} ELSE {Arg("", "i"), Arg("d", "s"), Arg("e", "t")}
      [] k = "s" -> {Arg("", "i")} \cup (IF Kids > 0 THEN {Arg("d", "s")} ELSE {}) \cup (IF Kids = 1 THEN {Arg("d", "t")} ELSE {})
                    \cup (IF Kids > 1 THEN {Arg("e", "s")} ELSE {})
      [] k = "t" -> {Arg("", "s")} \cup (IF Kids < 2 THEN {Arg("", "i")} ELSE {}) \cup (IF Kids > 0 THEN {Arg("d", "t")} ELSE {})
Rul(w, a, as) == [who |-> w, attr |-> a, args |-> SetToSeq(as)]
G(f) ==
    [phases |-> <<[name |-> "ph", uid |-> "", start |-> TRUE, acts |-> <<"ps">>]>>,
     passes |-> <<[name |-> "ps", uid |-> "", func |-> ""]>>, travs |-> <<>>, nodesets |-> <<>>, enums |-> <<>>,
     nodes |-> <<
       [name |-> "r", root |-> TRUE, children |-> <<Child("c", Always)>>, attrs |-> <<>>, lts |-> <<>>,
        eqs |-> <<Rul("c", "i", f["ci"])>>],
       [name |-> "x", root |-> FALSE, children |-> [n \in 1..Kids |-> Child(KidNames[n], <<>>)],
        attrs |-> <<Attr("i", TRUE), Attr("s", FALSE), Attr("t", FALSE)>>, lts |-> <<>>,
        eqs |-> [n \in 1..Kids |-> Rul(KidNames[n], "i", f[KidNames[n] \o "i"])]
                \o <<Rul("", "s", f["s"]), Rul("", "t", f["t"])>>]>>]

\* all subtrees of type x up to depth d, as sequences whose first node is the
\* top; 0 stands for no child
Shift(T, n) == [v \in DOMAIN T |-> [x |-> T[v].x, kids |-> [c \in DOMAIN T[v].kids |-> IF T[v].kids[c] = 0 THEN 0 ELSE T[v].kids[c] + n]]]
RECURSIVE Subs(_)
Subs(d) ==
    IF d = 0 THEN {<<>>}
    ELSE LET L == Subs(d - 1) IN {<<>>} \cup
      (CASE Kids = 0 -> {<<[x |-> "x", kids |-> <<>>]>>}
         [] Kids = 1 -> {<<[x |-> "x", kids |-> [d |-> IF l = <<>> THEN 0 ELSE 2]]>> \o Shift(l, 1) : l \in L}
         [] OTHER -> {<<[x |-> "x", kids |-> [d |-> IF l[1] = <<>> THEN 0 ELSE 2,
                                              e |-> IF l[2] = <<>> THEN 0 ELSE 2 + Len(l[1])]]>>
                       \o Shift(l[1], 1) \o Shift(l[2], 1 + Len(l[1])) : l \in L \X L})
Trees(d) == {<<[x |-> "r", kids |-> [c |-> 2]]>> \o Shift(l, 1) : l \in Subs(d) \ {<<>>}}

InstEdges(S, T) == UNION {{<<j, i>> : j \in Needs(S, T, i)} : i \in Instances(S, T)}
CyclicTree(S, T) == ~Acyclic(InstEdges(S, T))

Init == stage = 1 /\ args = <<>> /\ tree = <<>> /\ val = <<>>
Pick == /\ stage <= Len(Slots)
        /\ \E X \in SUBSET Pool(Slots[stage]) : args' = (Slots[stage] :> X) @@ args
        /\ stage' = stage + 1 /\ UNCHANGED <<tree, val>>
Plant == /\ Eval /\ stage = Len(Slots) + 1
         /\ tree' \in Trees(Deep) /\ ~CyclicTree(G(args), tree')
         /\ stage' = stage + 1 /\ UNCHANGED <<args, val>>
Step == /\ stage = Len(Slots) + 2
        /\ \E i \in Instances(G(args), tree) :
             /\ CanEvaluate(G(args), tree, val, i)
             /\ LET w == Home(G(args), tree, i)
                    q == Rule(G(args), tree, w, i[2])
                IN val' = (i :> <<i[2], [n \in DOMAIN ArgsAt(tree, w[1], q) |-> val[ArgsAt(tree, w[1], q)[n]]]>>) @@ val
        /\ UNCHANGED <<stage, args, tree>>
Next == Pick \/ Plant \/ Step
Spec == Init /\ [][Next]_vars

RECURSIVE Term(_, _, _)
Term(S, T, i) == LET w == Home(S, T, i)
                     q == Rule(S, T, w, i[2])
                 IN <<i[2], [n \in DOMAIN ArgsAt(T, w[1], q) |-> Term(S, T, ArgsAt(T, w[1], q)[n])]>>

\* Knuth's test says yes exactly if there is a tree with a circle
Exact == stage = Len(Slots) + 1 =>
    (CircularGrammar(G(args)) <=> \E T \in Trees(Depth) : CyclicTree(G(args), T))
\* grammars for one walk are never circular
Walkable == stage = Len(Slots) + 1 => (LeftToRight(G(args)) => ~CircularGrammar(G(args)))
\* evaluation never gets stuck, and its result does not depend on the order
NeverStuck == stage = Len(Slots) + 2 =>
    \/ Complete(G(args), tree, val)
    \/ \E i \in Instances(G(args), tree) : CanEvaluate(G(args), tree, val, i)
Confluent == stage = Len(Slots) + 2 => \A i \in DOMAIN val : val[i] = Term(G(args), tree, i)
=============================================================================
