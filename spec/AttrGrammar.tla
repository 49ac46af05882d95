---------------------------- MODULE AttrGrammar ----------------------------
(* P14: evaluation of the attributes of a tree.                             *)
(* A tree is a sequence of nodes [x, kids]: a node type, and for each child *)
(* name the index of the child or 0.  Node 1 is the root.  An instance is   *)
(* <<v, a>>: attribute a of node v.                                         *)
EXTENDS AttrRules

NodeOf(S, T, v) == TheNode(S, T[v].x)
Instances(S, T) == UNION {{<<v, a.name>> : a \in AG(S, T[v].x)} : v \in DOMAIN T}
\* the node whose equations define an instance, and the equation
Parent(T, v) == CHOOSE p \in DOMAIN T : \E c \in DOMAIN T[p].kids : T[p].kids[c] = v
Slot(T, v) == CHOOSE c \in DOMAIN T[Parent(T, v)].kids : T[Parent(T, v)].kids[c] = v
IsSynAttr(S, T, i) == \E a \in AG(S, T[i[1]].x) : a.name = i[2] /\ a.syn
Home(S, T, i) == IF IsSynAttr(S, T, i) THEN <<i[1], "">> ELSE <<Parent(T, i[1]), Slot(T, i[1])>>
Rule(S, T, w, attr) == CHOOSE q \in Ran(NodeOf(S, T, w[1]).eqs) : q.who = w[2] /\ q.attr = attr

\* the node an argument is taken from, 0 if it is an absent child
ArgNode(T, p, g) == IF g.who = "" THEN p ELSE T[p].kids[g.who]
Present(T, p, q) == SelectSeq(q.args, LAMBDA g : ArgNode(T, p, g) # 0)
\* the instances and plain attributes an equation receives at node p, in order
ArgsAt(T, p, q) == LET as == Present(T, p, q) IN [n \in DOMAIN as |-> <<ArgNode(T, p, as[n]), as[n].attr>>]
\* the children it finds absent
NullsAt(T, p, q) == {g.who : g \in {h \in Ran(q.args) : ArgNode(T, p, h) = 0}}
IsPlain(S, T, i) == \A a \in AG(S, T[i[1]].x) : a.name # i[2]

DepsAt(S, T, p, q) == {i \in Ran(ArgsAt(T, p, q)) : ~IsPlain(S, T, i)}
Needs(S, T, i) == LET w == Home(S, T, i) IN DepsAt(S, T, w[1], Rule(S, T, w, i[2]))

\* A step of an evaluator: an instance not yet evaluated, all of whose needs
\* are.  val maps the evaluated instances to values.
CanEvaluate(S, T, val, i) == i \notin DOMAIN val /\ Needs(S, T, i) \subseteq DOMAIN val
Complete(S, T, val) == DOMAIN val = Instances(S, T)
ValueOf(i, val, plain) == IF i \in DOMAIN val THEN val[i] ELSE plain[i]
=============================================================================
