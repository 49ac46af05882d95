------------------------------ MODULE DslRules ------------------------------
(* Static rules of the specification language (P11, and the parts of P12,  *)
(* P13 and P15 that concern acceptance).                                    *)
(*                                                                          *)
(* A specification is a record of sequences                                 *)
(*   phases   [name, uid, start, acts]      acts: names or uids             *)
(*   passes   [name, uid, func]             "" when absent                  *)
(*   travs    [name, uid, all, expr, data]  data: [name, kind, ref]         *)
(*   nodes    [name, root, children, attrs, eqs, lts]                       *)
(*   nodesets [name, expr, attrs]                                           *)
(*   enums    [name, prefix, values]                                        *)
(* with children [name, type, lts]; attributes [name, kind, ref, ctor, inh, *)
(* syn, lts] (kind "prim", "string", "ref" or "user"); equations [who,      *)
(* attr, args] (who "" is `this', args sequences of [who, attr]); lifetimes *)
(* [kind, lo, hi] with sequences of path components as bounds (<<>>: open). *)
(* All identifiers are given in lower case: the language does not           *)
(* distinguish case, but words in S.caps are written with capitals: then     *)
(* they are names and not words of the language.  Set expressions are [op, ids, id, l, r] with op       *)
(* "lit", "ref", "|", "&", "-".                                             *)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

Ran(s) == {s[i] : i \in DOMAIN s}
Opt(s) == IF s = "" THEN <<>> ELSE <<s>>
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]

(* ---- names ---- *)
\* every name that lives in the one global name space, with repetitions
GlobalNames(S) ==
    Flat(Map(LAMBDA p : <<p.name>> \o Opt(p.uid), S.phases))
    \o Flat(Map(LAMBDA p : <<p.name>> \o Opt(p.uid), S.travs))
    \o Flat(Map(LAMBDA p : <<p.name>> \o Opt(p.uid), S.passes))
    \o Map(LAMBDA n : n.name, S.nodes)
    \o Map(LAMBDA n : n.name, S.nodesets)
    \o Map(LAMBDA n : n.name, S.enums)

NodeNames(S) == {n.name : n \in Ran(S.nodes)}
SetNames(S) == {n.name : n \in Ran(S.nodesets)}
EnumNames(S) == {n.name : n \in Ran(S.enums)}
Named(x, name) == x.name = name \/ (x.uid = name /\ name # "")
IsPhase(S, a) == \E p \in Ran(S.phases) : Named(p, a)
IsAction(S, a) == \/ IsPhase(S, a)
                  \/ \E p \in Ran(S.passes) : Named(p, a)
                  \/ \E p \in Ran(S.travs) : Named(p, a)
TheNode(S, n) == CHOOSE x \in Ran(S.nodes) : x.name = n
TheSet(S, n) == CHOOSE x \in Ran(S.nodesets) : x.name = n
ThePhase(S, a) == CHOOSE p \in Ran(S.phases) : Named(p, a)

ReservedUids == {"trav", "trv", "ccn", "pass", "cpy", "chk", "del", "eval"}
ReservedPrefixes == {"nt", "ns", "trav", "pass", "ccn"}
Keywords == {"args", "attributes", "children", "constructor", "cycle", "enum", "equations", "inherited",
             "mandatory", "node", "nodeset", "nodes", "pass", "passes", "phase", "phases", "actions",
             "prefix", "subphases", "synthesized", "this", "to", "traversal", "travdata", "values", "info",
             "func", "root", "start", "double", "float", "int", "uint", "int8", "int16", "int32", "int64",
             "uint8", "uint16", "uint32", "uint64", "string", "bool", "lifetime", "disallowed", "optional",
             "allowed", "false", "true", "gate", "user", "uid"}
CKeywords == {"auto", "break", "case", "char", "const", "continue", "default", "do", "else", "extern", "for",
              "goto", "if", "inline", "long", "register", "restrict", "return", "short", "signed", "sizeof",
              "static", "struct", "switch", "typedef", "union", "unsigned", "void", "volatile", "while"}
Words == Keywords \cup CKeywords

LocalNames(x) == Map(LAMBDA c : c.name, x.children) \o Map(LAMBDA a : a.name, x.attrs)

\* every identifier written anywhere except enum values, which may be any word
Spelled(S) ==
    Ran(GlobalNames(S))
    \cup {p.func : p \in Ran(S.passes)}
    \cup {e.prefix : e \in Ran(S.enums)}
    \cup UNION {Ran(LocalNames(n)) : n \in Ran(S.nodes)}
    \cup UNION {{a.name : a \in Ran(n.attrs)} : n \in Ran(S.nodesets)}
    \cup UNION {{d.name : d \in Ran(t.data)} : t \in Ran(S.travs)}

DupNames(S) ==
    \/ ~Distinct(GlobalNames(S))
    \/ ~Distinct(Flat(Map(LAMBDA p : Opt(p.func), S.passes)))
    \/ \E n \in Ran(S.nodes) : ~Distinct(LocalNames(n))
    \/ \E n \in Ran(S.nodesets) : ~Distinct(Map(LAMBDA a : a.name, n.attrs))
    \/ \E e \in Ran(S.enums) : ~Distinct(e.values)
    \/ ~Distinct(Map(LAMBDA e : e.prefix, S.enums))
    \/ \E t \in Ran(S.travs) : ~Distinct(Map(LAMBDA d : d.name, t.data))

\* names of fields of the generated structures
Fields(S) == UNION {Ran(LocalNames(n)) : n \in Ran(S.nodes)} \cup UNION {{a.name : a \in Ran(n.attrs)} : n \in Ran(S.nodesets)}
FieldWords == CKeywords \cup {"double", "enum", "float", "int", "bool", "true", "false", "node", "node_st"}
\* entries of the generated enumerations, which all have NULL
Enumerators(S) == {n.name : n \in Ran(S.nodes) \cup Ran(S.nodesets) \cup Ran(S.passes) \cup Ran(S.phases) \cup Ran(S.travs)}
                  \cup {t.uid : t \in Ran(S.travs)}
ReservedNames(S) ==
    \/ (Spelled(S) \ Ran(S.caps)) \cap Words # {}
    \/ Fields(S) \cap FieldWords # {}
    \/ \E n \in Ran(S.nodes) : \E c \in Ran(n.children) : c.name = "this"    \* this.attr is of the node
    \/ "null" \in Enumerators(S)
    \/ "node" \in {n.name : n \in Ran(S.nodes)}
    \/ \E p \in Ran(S.phases) \cup Ran(S.passes) \cup Ran(S.travs) : p.uid \in ReservedUids
    \/ \E t \in Ran(S.travs) : t.uid = "ast"         \* AST<node> are the constructors
    \/ \E e \in Ran(S.enums) : e.prefix \in ReservedPrefixes

(* ---- roots ---- *)
BadRoots(S) ==
    \/ Cardinality({i \in DOMAIN S.nodes : S.nodes[i].root}) # 1
    \/ Cardinality({i \in DOMAIN S.phases : S.phases[i].start}) # 1

(* ---- references ---- *)
RECURSIVE LitsOf(_), RefsOf(_), OpsOf(_)
LitsOf(e) == CASE e.op = "lit" -> Ran(e.ids)
               [] e.op = "ref" -> {}
               [] OTHER -> LitsOf(e.l) \cup LitsOf(e.r)
RefsOf(e) == CASE e.op = "lit" -> {}
               [] e.op = "ref" -> {e.id}
               [] OTHER -> RefsOf(e.l) \cup RefsOf(e.r)
OpsOf(e) == IF e.op \in {"lit", "ref"} THEN {} ELSE {e.op} \cup OpsOf(e.l) \cup OpsOf(e.r)

BadExpr(S, e) == ~(LitsOf(e) \subseteq NodeNames(S)) \/ ~(RefsOf(e) \subseteq SetNames(S))
\* a node, nodeset or enum can be the type of a value, user types are not known
BadType(S, a) == a.kind = "ref" /\ a.ref \notin (NodeNames(S) \cup SetNames(S) \cup EnumNames(S))

BadRefs(S) ==
    \/ \E n \in Ran(S.nodes) : \E c \in Ran(n.children) : c.type \notin (NodeNames(S) \cup SetNames(S))
    \/ \E n \in Ran(S.nodes) \cup Ran(S.nodesets) : \E a \in Ran(n.attrs) : BadType(S, a)
    \/ \E t \in Ran(S.travs) : \E d \in Ran(t.data) : BadType(S, d)
    \/ \E t \in Ran(S.travs) : ~t.all /\ BadExpr(S, t.expr)
    \/ \E n \in Ran(S.nodesets) : BadExpr(S, n.expr)
    \/ \E p \in Ran(S.phases) : \E a \in Ran(p.acts) : ~IsAction(S, a)

(* ---- set expressions (names and references are known to be good) ---- *)
RECURSIVE ReachSets(_, _)
ReachSets(S, X) ==      \* nodesets referenced from X, directly or not, and X
    LET Y == X \cup UNION {RefsOf(TheSet(S, s).expr) : s \in X}
    IN IF Y = X THEN X ELSE ReachSets(S, Y)
Circular(S) == \E s \in SetNames(S) : s \in ReachSets(S, RefsOf(TheSet(S, s).expr))

RECURSIVE Value(_, _)
Value(S, e) == CASE e.op = "lit" -> Ran(e.ids)
                 [] e.op = "ref" -> Value(S, TheSet(S, e.id).expr)
                 [] e.op = "|" -> Value(S, e.l) \cup Value(S, e.r)
                 [] e.op = "&" -> Value(S, e.l) \cap Value(S, e.r)
                 [] e.op = "-" -> Value(S, e.l) \ Value(S, e.r)
Members(S, n) == Value(S, TheSet(S, n).expr)
EmptyTargets(S) == \E t \in Ran(S.travs) : ~t.all /\ Value(S, t.expr) = {}

(* ---- phases ---- *)
RECURSIVE ReachPhases(_, _)
ReachPhases(S, X) ==
    LET Y == X \cup {q.name : q \in {r \in Ran(S.phases) : \E p \in Ran(S.phases) :
                                       p.name \in X /\ (\E a \in Ran(p.acts) : Named(r, a))}}
    IN IF Y = X THEN X ELSE ReachPhases(S, Y)
CircularPhases(S) == \E p \in Ran(S.phases) :
    p.name \in ReachPhases(S, {q.name : q \in {r \in Ran(S.phases) : \E a \in Ran(p.acts) : Named(r, a)}})

(* ---- lifetimes ---- *)
\* The first occurrence, in the order of execution, of action a among the
\* actions acts or below: the phase it is, "action" or "none".
RECURSIVE First(_, _, _)
First(S, acts, a) ==
    IF acts = <<>> THEN [found |-> FALSE, acts |-> <<>>, phase |-> FALSE]
    ELSE LET h == Head(acts)
             ph == IsPhase(S, h)
             same == \E x \in Ran(S.phases) \cup Ran(S.passes) \cup Ran(S.travs) : Named(x, h) /\ Named(x, a)
         IN IF same THEN [found |-> TRUE, acts |-> IF ph THEN ThePhase(S, h).acts ELSE <<>>, phase |-> ph]
            ELSE LET d == IF ph THEN First(S, ThePhase(S, h).acts, a)
                                ELSE [found |-> FALSE, acts |-> <<>>, phase |-> FALSE]
                 IN IF d.found THEN d ELSE First(S, Tail(acts), a)
RECURSIVE Resolves(_, _, _)
Resolves(S, acts, path) ==
    LET f == First(S, acts, Head(path))
    IN f.found /\ (Len(path) > 1 => f.phase /\ Resolves(S, f.acts, Tail(path)))
StartActs(S) == (CHOOSE p \in Ran(S.phases) : p.start).acts
BadBound(S, path) == path # <<>> /\ ~Resolves(S, StartActs(S), path)
BadLts(S, lts) == \E l \in Ran(lts) : BadBound(S, l.lo) \/ BadBound(S, l.hi)

IsLink(S, a) == a.kind = "ref" /\ a.ref \in (NodeNames(S) \cup SetNames(S))
BadLifetimes(S) ==
    \/ \E n \in Ran(S.nodes) :
        \/ BadLts(S, n.lts)
        \/ \E l \in Ran(n.lts) : l.kind \in {"mandatory", "optional"}
        \/ \E c \in Ran(n.children) : BadLts(S, c.lts)
        \/ \E a \in Ran(n.attrs) : BadLts(S, a.lts)
    \/ \E n \in Ran(S.nodes) \cup Ran(S.nodesets) : \E a \in Ran(n.attrs) :
        a.lts # <<>> /\ ((a.kind # "string" /\ ~IsLink(S, a)) \/ a.inh \/ a.syn)
\* bounds of lifetimes in a nodeset matter only where members receive them
OddLifetimes(S) == \E n \in Ran(S.nodesets) : \E a \in Ran(n.attrs) : BadLts(S, a.lts)

(* ---- attributes of nodesets ---- *)
BuiltWith(S, n) == UNION {OpsOf(TheSet(S, s).expr) : s \in ReachSets(S, {n.name})}
SameType(a, b) == a.kind = b.kind /\ (a.kind \in {"ref", "user", "prim"} => a.ref = b.ref)
SameKind(a, b) == a.inh = b.inh /\ a.syn = b.syn
\* the nodesets, other than n itself, whose attributes a nodeset or node x gets
GiversOfNode(S, x) == {n \in Ran(S.nodesets) : x.name \in Members(S, n.name)}
GiversOfSet(S, m) == {n \in Ran(S.nodesets) : m.name \in ReachSets(S, RefsOf(n.expr))}

\* Nodeset n nested in m (so that its members are members of both), or a node
\* with two declarations of one attribute reaching it
Clash(S) ==
    \/ \E n \in Ran(S.nodesets) : \E a \in Ran(n.attrs) : a.ctor
    \/ \E n \in Ran(S.nodesets) : n.attrs # <<>> /\ BuiltWith(S, n) \cap {"&", "-"} # {}
    \/ \E x \in Ran(S.nodes) : \E n \in GiversOfNode(S, x) : \E a \in Ran(n.attrs) :
        \/ \E c \in Ran(x.children) : c.name = a.name
        \/ \E b \in Ran(x.attrs) : b.name = a.name /\
              (~SameType(a, b) \/ ~SameKind(a, b) \/ ~b.ctor \/ a.inh \/ a.syn)
        \/ \E m \in GiversOfNode(S, x) : m # n /\ \E b \in Ran(m.attrs) :
              b.name = a.name /\ (~SameType(a, b) \/ ~SameKind(a, b))
\* the same attribute declared by two nodesets of one member: may be refused
Repeated(S) ==
    \/ \E x \in Ran(S.nodes) : \E n, m \in GiversOfNode(S, x) : n # m /\
          \E a \in Ran(n.attrs), b \in Ran(m.attrs) : a.name = b.name
    \/ \E x \in Ran(S.nodesets) : \E n \in GiversOfSet(S, x) :
          \E a \in Ran(n.attrs), b \in Ran(x.attrs) : a.name = b.name
BadOwn(S) ==
    \/ \E n \in Ran(S.nodes) : \E a \in Ran(n.attrs) : (a.inh \/ a.syn) /\ a.ctor
    \/ \E n \in Ran(S.nodes) \cup Ran(S.nodesets) : \E a \in Ran(n.attrs) : a.inh /\ a.syn

(* ---- attribute equations ---- *)
\* every attribute of a node or nodeset, with the ones its nodesets give it
AttrsOfNode(S, x) == Ran(x.attrs) \cup
    {a \in UNION {Ran(n.attrs) : n \in GiversOfNode(S, x)} : ~\E b \in Ran(x.attrs) : b.name = a.name}
AttrsOfSet(S, m) == Ran(m.attrs) \cup UNION {Ran(n.attrs) : n \in GiversOfSet(S, m)}
AttrsOfType(S, t) == IF t \in NodeNames(S) THEN AttrsOfNode(S, TheNode(S, t)) ELSE AttrsOfSet(S, TheSet(S, t))
\* attributes equation ends of node x may mention: the ones of `this' or a child
AttrsAt(S, x, who) ==
    IF who = "" THEN AttrsOfNode(S, x)
    ELSE IF \E c \in Ran(x.children) : c.name = who
         THEN AttrsOfType(S, (CHOOSE c \in Ran(x.children) : c.name = who).type) ELSE {}

\* what the equations of node x must define
Required(S, x) ==
    {<<"", a.name>> : a \in {b \in AttrsOfNode(S, x) : b.syn}}
    \cup UNION {{<<c.name, a.name>> : a \in {b \in AttrsOfType(S, c.type) : b.inh}} : c \in Ran(x.children)}
Defined(x) == Map(LAMBDA q : <<q.who, q.attr>>, x.eqs)
BadEquations(S) == \E x \in Ran(S.nodes) :
    \/ Ran(Defined(x)) # Required(S, x)
    \/ ~Distinct(Defined(x))
    \/ \E q \in Ran(x.eqs) : ~Distinct(q.args)
    \/ \E q \in Ran(x.eqs) : \E g \in Ran(q.args) : ~\E a \in AttrsAt(S, x, g.who) : a.name = g.attr
    \/ x.root /\ \E a \in AttrsOfNode(S, x) : a.inh
    \* a child typed by a nodeset can be any member, and only the attributes
    \* of the nodeset can be given an equation
    \/ \E c \in {d \in Ran(x.children) : d.type \in SetNames(S)} :
          \E m \in Members(S, c.type) : \E a \in AttrsOfNode(S, TheNode(S, m)) :
              a.inh /\ ~\E b \in AttrsOfSet(S, TheSet(S, c.type)) : b.name = a.name
\* Members of a nodeset with inherited attributes should not add others: where
\* no child has the type of that nodeset, that may be accepted.
AddedInherited(S) == \E n \in Ran(S.nodesets), x \in Ran(S.nodes) :
    /\ x.name \in Members(S, n.name)
    /\ \E a \in AttrsOfSet(S, n) : a.inh
    /\ \E a \in AttrsOfNode(S, x) : a.inh /\ ~\E b \in AttrsOfSet(S, n) : b.name = a.name

(* Grammars one walk over the tree, from left to right, can evaluate: what  *)
(* goes down to a child comes from above, from its elder siblings or from   *)
(* what has gone down to it already, and there is one order for that.       *)
RECURSIVE Close(_)
Close(E) == LET F == E \cup {<<p[1][1], p[2][2]>> : p \in {r \in E \X E : r[1][2] = r[2][1]}}
            IN IF F = E THEN E ELSE Close(F)
Acyclic(E) == \A p \in Close(E) : p[1] # p[2]
Pos(x, who) == CHOOSE i \in DOMAIN x.children : x.children[i].name = who
TheAttr(S, x, g) == CHOOSE a \in AttrsAt(S, x, g.who) : a.name = g.attr
IsSyn(S, x, g) == TheAttr(S, x, g).syn
IsInh(S, x, g) == TheAttr(S, x, g).inh
LeftToRight(S) ==
    /\ \A x \in Ran(S.nodes) : \A q \in Ran(x.eqs) : q.who # "" =>
          \A g \in Ran(q.args) :
             \/ ~IsSyn(S, x, g) /\ ~IsInh(S, x, g)
             \/ g.who = "" /\ ~IsSyn(S, x, g)
             \/ g.who # "" /\ Pos(x, g.who) < Pos(x, q.who)
             \/ g.who = q.who /\ ~IsSyn(S, x, g)
    /\ Acyclic(UNION {UNION {{<<g.attr, q.attr>> : g \in {h \in Ran(q.args) : h.who = q.who /\
                                  (IF q.who = "" THEN IsSyn(S, x, h) ELSE IsInh(S, x, h))}}
                              : q \in Ran(x.eqs)} : x \in Ran(S.nodes)})

(* ---- verdict ---- *)
\* the reasons to reject S; later rules are defined only if earlier ones hold
Reasons(S) ==
    LET r1 == (IF DupNames(S) THEN {"duplicate"} ELSE {})
              \cup (IF ReservedNames(S) THEN {"reserved"} ELSE {})
              \cup (IF BadRoots(S) THEN {"roots"} ELSE {})
              \cup (IF BadRefs(S) THEN {"reference"} ELSE {})
    IN IF r1 # {} THEN r1
       ELSE LET r2 == (IF Circular(S) THEN {"circular"} ELSE {})
                      \cup IF CircularPhases(S) THEN {"circular phases"} ELSE {}
            IN IF r2 # {} THEN r2
               ELSE (IF EmptyTargets(S) THEN {"empty"} ELSE {})
                    \cup (IF BadLifetimes(S) THEN {"lifetime"} ELSE {})
                    \cup (IF Clash(S) THEN {"clash"} ELSE {})
                    \cup (IF BadOwn(S) THEN {"kind"} ELSE {})
                    \cup (IF BadEquations(S) THEN {"equations"} ELSE {})
\* TRAV<child> is a function of the runtime if the child is spelled like this
RuntimeChild(S) == \E n \in Ran(S.nodes) : \E c \in Ran(n.children) :
    c.name \in {"error", "getcurrent", "nop", "opt", "pop", "push"}
\* specifications whose acceptance the language leaves open
Open(S) == Reasons(S) = {} /\
    (OddLifetimes(S) \/ Repeated(S) \/ AddedInherited(S)
     \/ ~LeftToRight(S) \/ RuntimeChild(S))
Verdict(S) == IF Reasons(S) # {} THEN "reject" ELSE IF Open(S) THEN "any" ELSE "accept"
=============================================================================
