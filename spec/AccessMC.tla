------------------------------ MODULE AccessMC ------------------------------
(* All short programs over one small specification, against what the        *)
(* property says of histories.                                              *)
EXTENDS Access, TLC
CONSTANTS MaxLen, MaxObj
A(n, i, s) == [name |-> n, kind |-> "prim", ref |-> "int", ctor |-> FALSE, inh |-> i, syn |-> s, lts |-> <<>>]
N(n, r, cs, as) == [name |-> n, root |-> r, children |-> cs, attrs |-> as, eqs |-> <<>>, lts |-> <<>>]
C(n, t) == [name |-> n, type |-> t, ctor |-> FALSE, lts |-> <<>>]
TheS == [phases |-> <<>>, passes |-> <<>>, travs |-> <<>>, enums |-> <<>>,
         nodes |-> <<N("r", TRUE, <<C("c", "s"), C("d", "x")>>, <<A("y", FALSE, TRUE)>>),
                     N("x", FALSE, <<C("c", "z")>>, <<A("k", FALSE, FALSE)>>),
                     N("z", FALSE, <<>>, <<A("y", FALSE, TRUE), A("k", FALSE, FALSE)>>)>>,
         nodesets |-> <<[name |-> "s", expr |-> [op |-> "lit", ids |-> <<"x", "z">>], attrs |-> <<A("i", TRUE, FALSE)>>]>>]
VARIABLE hist
vars == <<S, obj, run, hist>>
Init == S = TheS /\ obj = <<Fresh("r")>> /\ run = Going /\ hist = <<>>
Ev(e) == hist' = Append(hist, e)
Accessors == {<<"r", "c">>, <<"r", "d">>, <<"r", "y">>, <<"x", "c">>, <<"x", "k">>, <<"x", "i">>, <<"z", "y">>, <<"z", "k">>, <<"z", "i">>, <<"s", "i">>}
\* trees only: a node is attached once, below an older one
Loose == {n \in 2..Len(obj) : \A m \in DOMAIN obj : \A c \in DOMAIN obj[m].kids : obj[m].kids[c] # n}
Next == /\ Len(hist) < MaxLen
        /\ \/ Len(obj) < MaxObj /\ \E t \in {"x", "z"} : New(t) /\ Ev([k |-> "new", t |-> t])
           \/ \E n \in Loose : \E p \in 1..(n - 1) : \E c \in Kids(obj[p].t) :
                  obj[p].kids[c] = 0 /\ Attach(p, c, n) /\ Ev([k |-> "attach", p |-> p, n |-> n])
           \/ \E n \in DOMAIN obj : \E oa \in Accessors : Access(oa[1], oa[2], n) /\ Ev([k |-> "use", o |-> oa[1], a |-> oa[2], n |-> n])
           \/ \E n \in DOMAIN obj : \E c \in {"c", "d"} : Visit(c, n) /\ Ev([k |-> "visit", c |-> c, n |-> n])
           \/ \E n \in DOMAIN obj : Evaluate(n) /\ Ev([k |-> "eval", n |-> n, ok |-> TRUE])
           \/ \E n \in DOMAIN obj : Refuse(n) /\ Ev([k |-> "eval", n |-> n, ok |-> FALSE])
           \/ \E n \in DOMAIN obj : Len(obj) + Cardinality(Below(n)) <= MaxObj /\ Copy(n) /\ Ev([k |-> "copy", n |-> n])
Spec == Init /\ [][Next]_vars

\* types of the nodes, from the history alone
Is(j, e) == hist[j].k = e
Has(t) == CASE t = "r" -> {"c", "d", "y"} [] t = "x" -> {"c", "k", "i"} [] t = "z" -> {"y", "k", "i"}
Belongs(o, t) == o = t \/ (o = "s" /\ t \in {"x", "z"})
Computed(a) == a \in {"y", "i"}
\* nothing is done after a stop, and what was stopped deserved it
OnlyLast == run.w # "on" => LET e == hist[Len(hist)] IN
    CASE run.w = "type" -> e.k = "use" /\ ~Belongs(e.o, obj[e.n].t) /\ run.o = e.o /\ run.a = e.a
      [] run.w = "unset" -> e.k = "use" /\ Belongs(e.o, obj[e.n].t) /\ Computed(e.a) /\ run.a = e.a
      [] run.w = "child" -> e.k = "visit" /\ e.c \notin Has(obj[e.n].t)
      [] run.w = "refused" -> e.k = "eval" /\ ~e.ok
\* every access that was performed was to something there
Performed(j) == j < Len(hist) \/ run.w = "on"
Sound == \A j \in DOMAIN hist : Is(j, "use") /\ Performed(j) =>
    /\ Belongs(hist[j].o, obj[hist[j].n].t)
    /\ hist[j].a \in Has(obj[hist[j].n].t)
    /\ Computed(hist[j].a) => \E k \in 1..(j - 1) : Is(k, "eval") /\ hist[k].ok
Steady == \A j \in DOMAIN hist : Is(j, "use") /\ Performed(j) => Allowed(hist[j].o, hist[j].a, hist[j].n)
Wellformed == \A n \in DOMAIN obj : DOMAIN obj[n].kids = Kids(obj[n].t)
    \* a copy shares nothing with its original
    /\ \A c \in DOMAIN obj[n].kids : obj[n].kids[c] \in 0..Len(obj) /\ (obj[n].kids[c] # 0 =>
         \A m \in DOMAIN obj : \A e \in DOMAIN obj[m].kids : obj[m].kids[e] = obj[n].kids[c] => m = n /\ c = e)
=============================================================================
