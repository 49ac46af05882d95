----------------------------- MODULE NodesetsMC -----------------------------
(* All systems of Sets nodesets, with expressions of at most Terms terms    *)
(* over node types NT, in every order of resolution.                        *)
EXTENDS Nodesets
CONSTANTS NT, Sets, Terms, Deep

Lits == {[k |-> "lit", ids |-> SetToSeq(S), id |-> "", e |-> <<>>] : S \in SUBSET NT \ {{}}}
RefTerms == {[k |-> "ref", ids |-> <<>>, id |-> n, e |-> <<>>] : n \in Sets}
Flat(n, T) == UNION {{[i \in 1..m |-> [op |-> ops[i], k |-> ts[i].k, ids |-> ts[i].ids, id |-> ts[i].id, e |-> ts[i].e]] :
                 ops \in {o \in [1..m -> {"|", "&", "-"}] : o[1] = "|"}, ts \in [1..m -> T]} : m \in 1..n}
Small == Lits \cup RefTerms
Pars == {[k |-> "par", ids |-> <<>>, id |-> "", e |-> e] : e \in Flat(2, Small)}
Exprs == Flat(Terms, Small) \cup (IF Deep THEN Flat(2, Small \cup Pars) ELSE {})

Order == SetToSeq(Sets)
Init == /\ val = <<>>
        /\ \E f \in [Sets -> Exprs] :
             sys = [sets |-> [i \in DOMAIN Order |-> [n |-> Order[i], e |-> f[Order[i]]]], travs |-> <<>>]
Next == \E n \in Names : Resolve(n)
Spec == Init /\ [][Next]_<<sys, val>>

(* ---- the meaning, defined without steps ---- *)
RECURSIVE Below(_)
Below(X) == LET Y == X \cup UNION {Refs(Expr(n)) : n \in X} IN IF Y = X THEN X ELSE Below(Y)
Circular(n) == n \in Below(Refs(Expr(n)))
\* nodesets that are circular or refer to one that is
Bad(n) == Circular(n) \/ \E m \in Below(Refs(Expr(n))) : Circular(m)
RECURSIVE In(_, _), InFirst(_, _, _)
\* is node type x in the value: reading from the last term backwards
InFirst(x, e, i) ==
    IF i = 0 THEN FALSE
    ELSE LET t == e[i]
             here == CASE t.k = "lit" -> x \in Ran(t.ids) [] t.k = "ref" -> In(x, Expr(t.id)) [] t.k = "par" -> In(x, t.e)
         IN CASE t.op = "|" -> InFirst(x, e, i - 1) \/ here
              [] t.op = "&" -> InFirst(x, e, i - 1) /\ here
              [] t.op = "-" -> InFirst(x, e, i - 1) /\ ~here
In(x, e) == InFirst(x, e, Len(e))

Meaning == \A n \in DOMAIN val : ~Bad(n) /\ val[n] = {x \in NT : In(x, Expr(n))}
StuckIff == Stuck => (\A n \in Names \ DOMAIN val : Bad(n)) /\ (Resolved <=> ~\E n \in Names : Circular(n))
\* laws of grouping that an evaluation from the right would break
Grouping == Resolved => \A n \in Names : LET e == Expr(n) IN
    (Len(e) = 3 /\ e[2].op = "-" /\ e[3].op = "-") =>
        val[n] = Term(val, e[1]) \ (Term(val, e[2]) \cup Term(val, e[3]))
=============================================================================
