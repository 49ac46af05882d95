---------------------------- MODULE GeneratedMC ----------------------------
(* The functions a user has to write, over all equations of a node with     *)
(* three children, each there at all times or not, and up to Args arguments *)
(* (in any order, of this and of the children): whatever children there are *)
(* when a rule is evaluated, exactly one function is for that case, and it  *)
(* takes no value from a child that is not there.                           *)
EXTENDS Generated
CONSTANTS Args
VARIABLES stage, kids, args
vars == <<stage, kids, args>>

Kids == <<"a", "b", "c">>
Attr(n, k, r, inh) == [name |-> n, kind |-> k, ref |-> r, ctor |-> FALSE, inh |-> inh, syn |-> ~inh, lts |-> <<>>]
Always == <<[kind |-> "mandatory", lo |-> <<>>, hi |-> <<>>]>>
Pool == {[who |-> w, attr |-> a] : w \in {"a", "b", "c"}, a \in {"s", "l"}} \cup {[who |-> "", attr |-> "h"]}
G(k, as) ==
    [phases |-> <<[name |-> "ph", uid |-> "p", start |-> TRUE, acts |-> <<"ps">>, og |-> "go"]>>,
     passes |-> <<[name |-> "ps", uid |-> "", func |-> "", on |-> "Ps", fn |-> "", up |-> ""]>>,
     travs |-> <<[name |-> "tr", uid |-> "tq", up |-> "TQ", all |-> FALSE, expr |-> [op |-> "lit", ids |-> <<"y">>],
                  data |-> <<[name |-> "d", kind |-> "prim", ref |-> "int"]>>],
                 [name |-> "tt", uid |-> "tw", up |-> "TW", all |-> TRUE, expr |-> [op |-> "lit", ids |-> <<>>], data |-> <<>>]>>,
     nodesets |-> <<>>, enums |-> <<[name |-> "e", prefix |-> "q", values |-> <<"v">>, on |-> "E"]>>,
     nodes |-> <<
       [name |-> "x", root |-> TRUE,
        children |-> [n \in 1..3 |-> [name |-> Kids[n], type |-> "y", lts |-> IF n \in k THEN Always ELSE <<>>]],
        attrs |-> <<Attr("h", "ref", "e", TRUE), Attr("r", "prim", "int", FALSE)>>, lts |-> <<>>,
        eqs |-> <<[who |-> "", attr |-> "r", args |-> as]>>],
       [name |-> "y", root |-> FALSE, children |-> <<>>,
        attrs |-> <<Attr("s", "string", "", FALSE), Attr("l", "ref", "x", FALSE)>>, lts |-> <<>>,
        eqs |-> <<[who |-> "", attr |-> "s", args |-> <<>>], [who |-> "", attr |-> "l", args |-> <<>>]>>]>>]

Init == stage = 0 /\ kids = {} /\ args = <<>>
Next == \/ stage = 0 /\ stage' = 1 /\ kids' \in SUBSET (1..3) /\ UNCHANGED args
        \/ stage = 1 /\ Len(args) < Args /\ \E g \in Pool \ Ran(args) : args' = Append(args, g) /\ UNCHANGED <<stage, kids>>
Spec == Init /\ [][Next]_vars

S == G(kids, args)
Eq == [who |-> "", attr |-> "r", args |-> args]
Fns == EquationFns(S, S.nodes[1], Eq)
MayMiss == {Kids[n] : n \in (1..3) \ kids}
\* what the visit function calls when the children of Gone are not there
CalledFor(Gone) ==
    LET opt == Absent(S.nodes[1], args)
    IN "EVALx_this_r" \o FoldLeft(LAMBDA s, c : IF c \in Gone THEN s \o "_" \o c \o "_NULL" ELSE s, "", opt)
TypeFor(g) == IF g.who = "" THEN "enum E" ELSE IF g.attr = "s" THEN "char *" ELSE "node_st *"
ParamsFor(Gone) == LET there == SelectSeq(args, LAMBDA g : g.who \notin Gone) IN [i \in DOMAIN there |-> TypeFor(there[i])]

OneForEveryCase == stage = 1 =>
    \A Gone \in SUBSET MayMiss :
        \E f \in Fns : /\ f.name = CalledFor(Gone) /\ f.params = ParamsFor(Gone) /\ f.ret = "int"
                       /\ \A g \in Fns \ {f} : g.name # f.name
\* and no function is for no case
NoneTooMany == stage = 1 => \A f \in Fns : \E Gone \in SUBSET MayMiss : f.name = CalledFor(Gone)
Count == stage = 1 => Cardinality(Fns) = 2 ^ Cardinality({g.who : g \in Ran(args)} \cap MayMiss)
Clear == stage = 1 => Unambiguous(S)
\* the other functions do not depend on the equation
Others == stage = 1 =>
    {f.name : f \in Functions(S) \ Fns} = {"BreakpointHandler", "Ps", "go", "TQy", "TQinit", "TQfini", "TWx", "TWy", "EVALy_this_s", "EVALy_this_l"}
=============================================================================
