--------------------------- MODULE NodesetAttrsMC ---------------------------
(* All structures of nodesets built with unions over node types NT, with    *)
(* attributes placed anywhere, propagated in every order.                   *)
EXTENDS NodesetAttrs, TLC
CONSTANTS NT, NS, AN, Kinds2   \* names; Kinds2: two kinds of attributes

A(n, k) == [name |-> n, kind |-> "prim", ref |-> IF k = 1 THEN "int" ELSE "bool", ctor |-> k = 3,
            inh |-> FALSE, syn |-> k = 4, lts |-> <<>>]
AttrSeqs == {<<>>} \cup {<<A(n, k)>> : n \in AN, k \in Kinds2}
NodeAttrSeqs == {<<>>} \cup {<<A(n, k)>> : n \in AN, k \in Kinds2 \cup {3}}
LitE(X) == [op |-> "lit", ids |-> SetToSeq(X), id |-> "", l |-> <<>>, r |-> <<>>]
RefE(n) == [op |-> "ref", ids |-> <<>>, id |-> n, l |-> <<>>, r |-> <<>>]
Base == {LitE(X) : X \in SUBSET NT \ {{}}} \cup {RefE(n) : n \in NS}
Exprs == Base \cup {[op |-> "|", ids |-> <<>>, id |-> "", l |-> x, r |-> y] : x \in Base, y \in Base}
NTs == SetToSeq(NT)
NSs == SetToSeq(NS)
Specs == {[nodes |-> [i \in DOMAIN NTs |-> [name |-> NTs[i], root |-> i = 1, children |-> <<>>, attrs |-> na[i], eqs |-> <<>>, lts |-> <<>>]],
           nodesets |-> [i \in DOMAIN NSs |-> [name |-> NSs[i], expr |-> ex[i], attrs |-> sa[i]]],
           phases |-> <<>>, passes |-> <<>>, travs |-> <<>>, enums |-> <<>>] :
             na \in [DOMAIN NTs -> NodeAttrSeqs], ex \in [DOMAIN NSs -> Exprs], sa \in [DOMAIN NSs -> AttrSeqs]}

Init == /\ S \in {s \in Specs : ~Circular(s)}
        /\ has = Own(S)
Next == \E n \in SetNames(S), x \in NodeNames(S) \cup SetNames(S) : \E h \in has :
            h.who = n /\ Give(n, h.attr, x)
Spec == Init /\ [][Next]_<<S, has>>

Accepted == ~Clash(S)
Of(x) == {h.attr : h \in {k \in has : k.who = x}}
\* attributes never reach what is not a member
NoSpread == \A h \in has : \/ h \in Own(S)
                           \/ h.who \in NodeNames(S) /\ \E n \in GiversOfNode(S, TheNode(S, h.who)) : h.attr \in Ran(n.attrs)
                           \/ h.who \in SetNames(S) /\ \E n \in GiversOfSet(S, TheSet(S, h.who)) : h.attr \in Ran(n.attrs)
\* at the end of an accepted one every member has every attribute, with one
\* signature, in whatever order it got there
Complete == (Done /\ Accepted) =>
    /\ \A x \in Ran(S.nodes) : {b.name : b \in Of(x.name)} = {b.name : b \in AttrsOfNode(S, x)}
    /\ \A x \in Ran(S.nodes) : \A n \in GiversOfNode(S, x) : \A a \in Ran(n.attrs) :
          \A b \in Of(x.name) : b.name = a.name => SameType(a, b) /\ SameKind(a, b)
    /\ \A m \in Ran(S.nodesets) : {b.name : b \in Of(m.name)} = {b.name : b \in AttrsOfSet(S, m)}
\* every accessor of a nodeset leads somewhere in every member
Reach == (Done /\ Accepted) => \A n \in Ran(S.nodesets) : \A x \in Members(S, n.name) :
    \A f \in FieldsOf(S, has, n.name) : f \in FieldsOf(S, has, x)
=============================================================================
