----------------------------- MODULE AttrRules -----------------------------
(* P15: which attribute grammars are to be rejected and which accepted.     *)
(* Circular is Knuth's test: the possible dependencies from inherited to    *)
(* synthesized attributes are computed for every node type as a set of      *)
(* graphs, one for each way its subtrees can look.                          *)
EXTENDS DslRules

Mandatory(c) == \E l \in Ran(c.lts) : l.kind = "mandatory" /\ l.lo = <<>> /\ l.hi = <<>>
Types(S, t) == IF t \in NodeNames(S) THEN {t} ELSE Members(S, t)
AG(S, t) == {a \in AttrsOfType(S, t) : a.inh \/ a.syn}

\* dependencies between the attributes in a node of type x, by its equations
Direct(x) == UNION {{<< <<g.who, g.attr>>, <<q.who, q.attr>> >> : g \in Ran(q.args)} : q \in Ran(x.eqs)}
\* a graph of a child's type, as dependencies in the parent
At(who, G) == {<< <<who, p[1]>>, <<who, p[2]>> >> : p \in G}

\* the graphs a child of x can have, given the graphs IO of its types
ChildGraphs(S, IO, c) ==
    (IF Mandatory(c) THEN {} ELSE {{}}) \cup UNION {IO[y] : y \in Types(S, c.type)}
Pasted(S, IO, x) ==
    {Close(Direct(x) \cup UNION {At(x.children[i].name, f[i]) : i \in DOMAIN f})
       : f \in {h \in [DOMAIN x.children -> UNION {ChildGraphs(S, IO, x.children[i]) : i \in DOMAIN x.children}] :
                  \A i \in DOMAIN h : h[i] \in ChildGraphs(S, IO, x.children[i])}}
Above(S, x, G) ==
    {<<a, b>> \in {q.name : q \in {r \in AG(S, x.name) : r.inh}} \X {q.name : q \in {r \in AG(S, x.name) : r.syn}} :
        << <<"", a>>, <<"", b>> >> \in G}
\* only the largest graphs matter: circles do not vanish in larger ones
Maximal(Gs) == {g \in Gs : ~\E h \in Gs : g # h /\ g \subseteq h}
RECURSIVE Graphs(_, _)
Graphs(S, IO) ==
    LET JO == [y \in NodeNames(S) |-> Maximal(IO[y] \cup {Above(S, TheNode(S, y), G) : G \in Pasted(S, IO, TheNode(S, y))})]
    IN IF JO = IO THEN IO ELSE Graphs(S, JO)
IOs(S) == Graphs(S, [y \in NodeNames(S) |-> {}])

\* the types that occur in some tree
RECURSIVE Occurring(_, _, _)
Occurring(S, IO, X) ==
    LET Y == X \cup UNION {UNION {{y \in Types(S, c.type) : IO[y] # {}} : c \in Ran(TheNode(S, x).children)} : x \in X}
    IN IF Y = X THEN X ELSE Occurring(S, IO, Y)

CircularGrammar(S) ==
    LET IO == IOs(S)
        root == (CHOOSE x \in Ran(S.nodes) : x.root).name
        occ == IF IO[root] = {} THEN {} ELSE Occurring(S, IO, {root})
    IN \E x \in occ : \E G \in Pasted(S, IO, TheNode(S, x)) : \E p \in G : p[1] = p[2]

AttrVerdict(S) ==
    IF Reasons(S) # {} THEN "reject"
    ELSE IF CircularGrammar(S) THEN "reject"
    ELSE IF Open(S) THEN "any" ELSE "accept"
AttrReasons(S) == IF Reasons(S) # {} THEN Reasons(S) ELSE IF CircularGrammar(S) THEN {"circular grammar"} ELSE {}
=============================================================================
