------------------------------ MODULE Nodesets ------------------------------
(* Values of set expressions (P12).                                         *)
(*                                                                          *)
(* A system is [sets |-> <<[n, e], ...>>, travs |-> <<[n, e], ...>>].  An   *)
(* expression is written as in the language, without structure imposed: a   *)
(* sequence of terms with the operator before each (that of the first is    *)
(* "|").  A term is [op, k, ids, id, e]: k "lit" with the names ids, "ref"  *)
(* to the nodeset id, or "par" with the expression e in parentheses.        *)
(*                                                                          *)
(* Nodesets get their values one at a time, in any order in which all the   *)
(* nodesets referred to have one; then targets of traversals are computed.  *)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

VARIABLES sys,
          val       \* function from the names of resolved nodesets to values

Ran(s) == {s[i] : i \in DOMAIN s}

\* the value under v, from left to right
RECURSIVE Eval(_, _)
Term(v, t) == CASE t.k = "lit" -> Ran(t.ids)
                [] t.k = "ref" -> v[t.id]
                [] t.k = "par" -> Eval(v, t.e)
Apply(op, A, B) == CASE op = "|" -> A \cup B
                     [] op = "&" -> A \cap B
                     [] op = "-" -> A \ B
Eval(v, e) == FoldLeft(LAMBDA A, t : Apply(t.op, A, Term(v, t)), {}, e)

RECURSIVE Refs(_)
Refs(e) == UNION {CASE t.k = "lit" -> {} [] t.k = "ref" -> {t.id} [] t.k = "par" -> Refs(t.e) : t \in Ran(e)}

Names == {s.n : s \in Ran(sys.sets)}
Expr(n) == (CHOOSE s \in Ran(sys.sets) : s.n = n).e
Ready(n) == n \notin DOMAIN val /\ Refs(Expr(n)) \subseteq DOMAIN val
Resolve(n) == /\ Ready(n)
              /\ val' = val @@ (n :> Eval(val, Expr(n)))
              /\ UNCHANGED sys
Stuck == \A n \in Names : ~Ready(n)
Resolved == DOMAIN val = Names

(* what cocogen and the generated code show once nothing can be resolved *)
Accepts == Resolved /\ \A t \in Ran(sys.travs) : Eval(val, t.e) # {}
Admitted(n) == val[n]                                \* in a child of type n
Handled(t) == Eval(val, (CHOOSE x \in Ran(sys.travs) : x.n = t).e)
=============================================================================
