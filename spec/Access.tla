------------------------------- MODULE Access -------------------------------
(* Using the accessors of generated nodes (P20): an access to something a   *)
(* node does not have, or to an attribute that has no value yet, is the     *)
(* last thing a program (built with assertions) does; any other access is   *)
(* performed.  S is a specification of DslRules.                            *)
EXTENDS DslRules

VARIABLES S,
          obj,  \* nodes: [t |-> type, ev |-> are its attributes evaluated?, kids |-> [child |-> node or 0]]
          run   \* [w |-> "on"] or how the program was stopped

On == run.w = "on"
Going == [w |-> "on", o |-> "", a |-> "", here |-> TRUE]
Kids(t) == {c.name : c \in Ran(TheNode(S, t).children)}
Owners(o) == IF o \in NodeNames(S) THEN {o} ELSE Members(S, o)
Fits(o, n) == obj[n].t \in Owners(o)
\* does accessor a of o read the result of an equation?
Lazy(o, a) == \E b \in AttrsOfType(S, o) : b.name = a /\ (b.inh \/ b.syn)
Fresh(t) == [t |-> t, ev |-> FALSE, kids |-> [c \in Kids(t) |-> 0]]
Stay == UNCHANGED <<S, obj, run>>
Stop(why) == run' = why /\ UNCHANGED <<S, obj>>

New(t) == On /\ obj' = Append(obj, Fresh(t)) /\ UNCHANGED <<S, run>>
Attach(p, c, n) == On /\ obj' = [obj EXCEPT ![p].kids[c] = n] /\ UNCHANGED <<S, run>>

\* accessor a of node type or nodeset o is used on node n
Allowed(o, a, n) == Fits(o, n) /\ (Lazy(o, a) => obj[n].ev)
WhyNot(o, a, n) ==
    IF ~Fits(o, n) THEN [w |-> "type", o |-> o, a |-> a, here |-> TRUE]
    \* through a nodeset, the place reported is that of the nodeset's accessor
    ELSE [w |-> "unset", o |-> "", a |-> a, here |-> o \in NodeNames(S)]
Access(o, a, n) == On /\ IF Allowed(o, a, n) THEN Stay ELSE Stop(WhyNot(o, a, n))

\* the children c of n are traversed
Visit(c, n) == On /\ IF c \in Kids(obj[n].t) THEN Stay
                     ELSE Stop([w |-> "child", o |-> "", a |-> c, here |-> FALSE])

\* everything below and at n
RECURSIVE Below(_)
Below(n) == IF n = 0 THEN {} ELSE {n} \cup UNION {Below(obj[n].kids[c]) : c \in DOMAIN obj[n].kids}
Inherits(t) == \E b \in AttrsOfNode(S, TheNode(S, t)) : b.inh
Synthesizes(t) == \E b \in AttrsOfNode(S, TheNode(S, t)) : b.syn
\* what comes from above a node cannot be evaluated from that node on; where a
\* type has no attributes of its own there may be nothing to do
Evaluate(n) == /\ On /\ ~Inherits(obj[n].t)
               /\ obj' = [m \in DOMAIN obj |-> IF m \in Below(n) THEN [obj[m] EXCEPT !.ev = TRUE] ELSE obj[m]]
               /\ UNCHANGED <<S, run>>
Refuse(n) == /\ On /\ (Inherits(obj[n].t) \/ ~Synthesizes(obj[n].t))
             /\ Stop([w |-> "refused", o |-> "", a |-> "", here |-> FALSE])

\* a copy is made of n and all below, numbered from above in declared order;
\* values computed for the original are not those of the copy
RECURSIVE Copied(_, _), CopiedKids(_, _, _)
Copied(n, id) ==
    LET ks == CopiedKids(n, TheNode(S, obj[n].t).children, id + 1)
    IN  <<[t |-> obj[n].t, ev |-> FALSE, kids |-> ks.k]>> \o ks.s
CopiedKids(n, cs, id) ==
    IF cs = <<>> THEN [k |-> <<>>, s |-> <<>>]
    ELSE LET c == Head(cs).name
             m == obj[n].kids[c]
             sub == IF m = 0 THEN <<>> ELSE Copied(m, id)
             rest == CopiedKids(n, Tail(cs), id + Len(sub))
         IN  [k |-> [d \in DOMAIN rest.k \cup {c} |-> IF d = c THEN (IF m = 0 THEN 0 ELSE id) ELSE rest.k[d]],
              s |-> sub \o rest.s]
Copy(n) == On /\ obj' = obj \o Copied(n, Len(obj) + 1) /\ UNCHANGED <<S, run>>
=============================================================================
