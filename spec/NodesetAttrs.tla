---------------------------- MODULE NodesetAttrs ----------------------------
(* The attributes nodesets give to their members (P13): what is declared in *)
(* a nodeset is passed on, one step at a time, to the nodesets it refers to *)
(* and the node types it lists, until nothing is new.  S is a specification *)
(* of DslRules.                                                             *)
EXTENDS DslRules

VARIABLES S,
          has    \* set of [who, attr]: attributes known to nodes and nodesets

Own(s) == {[who |-> x.name, attr |-> a] : <<x, a>> \in
              {<<y, b>> \in (Ran(s.nodes) \cup Ran(s.nodesets)) \X
                            UNION {Ran(z.attrs) : z \in Ran(s.nodes) \cup Ran(s.nodesets)} : b \in Ran(y.attrs)}}
Knows(who, name) == \E h \in has : h.who = who /\ h.attr.name = name
Directly(e) == RefsOf(e) \cup LitsOf(e)
\* nodeset n passes attribute a on to x
Give(n, a, x) ==
    /\ [who |-> n, attr |-> a] \in has
    /\ x \in Directly(TheSet(S, n).expr)
    /\ ~Knows(x, a.name)       \* a member that repeats it keeps its own
    /\ has' = has \cup {[who |-> x, attr |-> a]}
    /\ UNCHANGED S
Done == \A h \in has : h.who \in SetNames(S) => \A x \in Directly(TheSet(S, h.who).expr) : Knows(x, h.attr.name)

(* ---- what the generated code shows of an accepted specification ---- *)
CType(s, a) == CASE a.kind = "string" -> "string"
                 [] a.kind = "user" -> "user"
                 [] a.kind = "prim" -> IF a.ref = "int" THEN "int32" ELSE a.ref
                 [] a.kind = "ref" -> IF a.ref \in EnumNames(s) THEN "uint32" ELSE "node"
Classic(a) == ~a.inh /\ ~a.syn
\* the accessors of a node or nodeset: [name, type, classic]
FieldsOf(s, known, x) ==
    {[a |-> h.attr.name, t |-> CType(s, h.attr), w |-> Classic(h.attr)] : h \in {k \in known : k.who = x}}
    \cup IF x \in NodeNames(s)
         THEN {[a |-> c.name, t |-> "node", w |-> TRUE] : c \in Ran(TheNode(s, x).children)} ELSE {}
\* arguments of the constructor, by position: children first
CtorArgs(s, x) == {a.name : a \in {b \in Ran(TheNode(s, x).attrs) : b.ctor}}
\* the nodeset's accessor, used on a node of type x, leads to the node's own
Through(s, n, x) == x \in Members(s, n)
=============================================================================
