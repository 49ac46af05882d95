----------------------------- MODULE LifetimesMC -----------------------------
(* All small structures, all lifetimes (one or two on each kind of element), *)
(* all trees of up to two nodes of two types: the checked phase driver       *)
(* against the interval reading of lifetimes stated independently below.     *)
EXTENDS Lifetimes, Json, IOUtils, TLC

CONSTANT Two        \* BOOLEAN: pairs of lifetimes on one element as well
Structs == JsonDeserialize(IOEnv.INPUT)

VARIABLES elem,     \* which element carries the lifetimes: "node" | "child" | "attr"
          lts,      \* its lifetimes
          ran       \* the occurrence performed last, with the tree it received
vars == <<pdvars, decl, checking, elem, lts, ran>>

Names(st) == {st.defs[i].n : i \in DOMAIN st.defs} \ {st.defs[st.start].n}
Kinds == {"allowed", "disallowed", "mandatory", "optional"}
Bounds(st) == {[incl |-> FALSE, path |-> <<>>]}
                \cup {[incl |-> b, path |-> <<x>>] : b \in BOOLEAN, x \in Names(st)}
Lts(st, ks) == {[k |-> k, lo |-> lo, hi |-> hi] : k \in ks, lo \in Bounds(st), hi \in Bounds(st)}
Decl(e, ls) == <<[n |-> "r", lt |-> <<>>, c |-> <<[ty |-> <<"x">>, lt |-> IF e = "child" THEN ls ELSE <<>>]>>,
                  a |-> <<IF e = "attr" THEN ls ELSE <<>>>>],
                 [n |-> "x", lt |-> IF e = "node" THEN ls ELSE <<>>, c |-> <<>>, a |-> <<>>]>>
\* trees: child absent / right / wrong type, attribute absent / present
Trees == {<<[t |-> 1, c |-> <<0>>, a |-> <<a>>]>> : a \in {0, 1}}
           \cup {<<[t |-> 1, c |-> <<2>>, a |-> <<a>>], [t |-> 2, c |-> <<>>, a |-> <<>>]>> : a \in {0, 1}}
           \cup {<<[t |-> 1, c |-> <<2>>, a |-> <<1>>], [t |-> 1, c |-> <<0>>, a |-> <<1>>]>>}

Init == \E s \in DOMAIN Structs, e \in {"node", "child", "attr"} :
        LET st == Structs[s]
            ks == IF e = "node" THEN {"allowed", "disallowed"} ELSE Kinds
        IN  \E l1 \in Lts(st, ks), l2 \in (IF Two THEN Lts(st, ks) ELSE {[k |-> "none", lo |-> 0, hi |-> 0]}), ch \in BOOLEAN :
            /\ elem = e /\ lts = (IF Two THEN <<l1, l2>> ELSE <<l1>>)
            /\ checking = ch /\ decl = Decl(e, lts)
            /\ InitPD(st, 100, [id |-> 0, path |-> <<>>]) /\ ran = [i |-> 0, tr |-> <<>>]

Bad == ctl.c = "disp" /\ checking /\ ~Consistent(P, <<>>, decl, tree, ctl.i)
Next == /\ UNCHANGED <<decl, checking, elem, lts>>
        /\ \/ \E tr \in Trees : ctl.c = "idle" /\ ran.i = 0 /\ Start(tr) /\ UNCHANGED ran
           \/ Bad /\ ctl' = Ctl("fail", ctl.i) /\ ran' = ran /\ UNCHANGED <<P, stack, tree, max, bp>>
           \/ ~Bad /\ Dispatch /\ ran' = [i |-> ctl.i, tr |-> tree]
           \/ (Body \/ After \/ EndBodyWith(FALSE)) /\ UNCHANGED ran
           \/ \E tr \in Trees : Leaf(tr, FALSE, FALSE, FALSE, -1) /\ UNCHANGED ran
Spec == Init /\ [][Next]_vars

\* ---- the properties, read as intervals of actions ------------------------
First(x) == CHOOSE i \in DOMAIN P : P[i].n = x /\ \A j \in DOMAIN P : P[j].n = x => i <= j
All(i) == {j \in DOMAIN P : i <= j /\ j < P[i].nxt}      \* a phase stands for all its actions
\* the actions strictly before / after everything x stands for
Before(x) == {j \in DOMAIN P : \A m \in All(First(x)) : j < m}
Afterx(x) == {j \in DOMAIN P : \A m \in All(First(x)) : j > m}
Covered(l) ==
    DOMAIN P \ ((IF l.lo.path = <<>> THEN {} ELSE Before(l.lo.path[1]) \cup (IF l.lo.incl THEN {} ELSE All(First(l.lo.path[1]))))
        \cup (IF l.hi.path = <<>> THEN {} ELSE Afterx(l.hi.path[1]) \cup (IF l.hi.incl THEN {} ELSE All(First(l.hi.path[1])))))
Present(tr) == CASE elem = "node" -> \E m \in DOMAIN tr : tr[m].t = 2
                 [] elem = "child" -> tr[1].c[1] # 0
                 [] elem = "attr" -> tr[1].a[1] # 0
\* a root nested below the root is wrong by its type whatever the lifetimes say
TypeOk(tr) == \A m \in DOMAIN tr : \A c \in DOMAIN tr[m].c : tr[m].c[c] # 0 => tr[tr[m].c[c]].t = 2
Breaks(l, k, pr) == \/ l.k = "disallowed" /\ k \in Covered(l) /\ pr
                    \/ l.k = "allowed" /\ k \notin Covered(l) /\ pr
                    \/ l.k = "mandatory" /\ k \in Covered(l) /\ ~pr
                    \/ l.k = "optional" /\ k \notin Covered(l) /\ ~pr
Violated(tr, k) == ~TypeOk(tr) \/ \E j \in DOMAIN lts : Breaks(lts[j], k, Present(tr))
\* no action is reached with an inconsistent tree
Enforced == checking /\ ran.i > 0 => ~Violated(ran.tr, ran.i)
\* a run is aborted only because of a violation
NoFalseAbort == ctl.c = "fail" => checking /\ Violated(tree, ctl.i)
\* with checking off, nothing stops a run
Off == ~checking => ctl.c # "fail"
=============================================================================
