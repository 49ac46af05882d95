------------------------------ MODULE SyntaxMC ------------------------------
(* All sequences of at most MaxLen tokens; at any point the text may go on   *)
(* with the shortest rest that makes it a sentence.                          *)
EXTENDS Syntax
CONSTANT MaxLen
VARIABLES next, n, closing
vars == <<stack, verdict, next, n, closing>>
Offered == {"id", "str", "node", "root", "nodeset", "enum", "traversal", "pass", "start", "phase", "children", "attributes",
            "equations", "lifetime", "actions", "info", "uid", "nodes", "travdata", "prefix", "values", "func", "gate", "args",
            "this", "int", "user", "constructor", "inherited", "mandatory", "allowed", "eof", "num", "word", "NULL"} \cup Punctuation
\* the token that closes a symbol fastest
Closer(s) == CASE s \in Terminals -> IF s = "name" THEN "id" ELSE s
               [] s = "<spec>" -> "eof" [] s = "<more>" -> "eof"
               [] s = "<entry>" -> "pass" [] s \in {"<phase>", "<kind>"} -> "phase"
               [] s \in {"<phase1>", "<phase2>", "<phase3>", "<phase4>"} -> "actions"
               [] s = "<actions>" -> "}" [] s = "<action>" -> "id"
               [] s = "<pass>" -> "pass" [] s = "<pass0>" -> "=" [] s \in {"<pass1>", "<pass2>"} -> "func" [] s = "<pass3>" -> "}"
               [] s = "<traversal>" -> "traversal" [] s \in {"<trav1>", "<trav2>"} -> "uid" [] s = "<trav4>" -> "travdata"
               [] s \in {"<trav3>", "<trav5>", "<ns3>", "<node1>", "<node2>", "<node4>", "<node5>", "<node7>", "<copt1>", "<copt2>",
                         "<aopt1>", "<aopt2>", "<args>", "<refs>"} -> "}"
               [] s \in {"<expr>", "<prim>", "<typed>", "<child>", "<children>", "<attribute>", "<attributes>", "<equation>",
                         "<equations>", "<ref>", "<path>", "<travdata>"} -> "id"
               [] s = "<op>" -> "|" [] s = "<nodeset>" -> "=" [] s \in {"<ns1>", "<ns2>"} -> "nodes"
               [] s \in {"<enum>", "<enum1>"} -> "prefix"
               [] s = "<node>" -> "node" [] s \in {"<node3>", "<node4b>", "<node6>"} -> "lifetime"
               [] s \in {"<option>", "<aopt3>"} -> "constructor" [] s \in {"<life>", "<lifetime>"} -> "mandatory"
               [] s = "<lo>" -> "(" [] s = "<lo1>" -> "->" [] s = "<hi>" -> ")" [] s = "<hi1>" -> ")"
               \* these may become nothing: what follows them
               [] OTHER -> "-"
RECURSIVE Rest(_)
Rest(st) == IF st = <<>> THEN "eof" ELSE IF Closer(Head(st)) = "-" THEN Rest(Tail(st)) ELSE Closer(Head(st))
Init == Start /\ next = "?" /\ n = 0 /\ closing = FALSE
Offer == /\ next = "?" /\ verdict = ""
         /\ \/ ~closing /\ n < MaxLen /\ next' \in Offered /\ n' = n + 1 /\ UNCHANGED closing
            \/ next' = Rest(stack) /\ closing' = TRUE /\ UNCHANGED n
         /\ UNCHANGED reading
Read == next # "?" /\ ((Take(next) /\ next' = "?") \/ ((Finish(next) \/ Refuse(next) \/ Turn(next)) /\ UNCHANGED next))
        /\ UNCHANGED <<n, closing>>
Next == Offer \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* whatever was read without objection can be completed: a text is refused at
\* the first token that no sentence has there
Viable == closing => verdict \in {"", "yes"}
\* one way to read only
Once == next = "?" \/ verdict # "" \/ Cardinality({x \in {1, 2, 3, 4} :
           CASE x = 1 -> stack = <<>>
             [] x = 2 -> stack # <<>> /\ Top \in Terminals /\ Matches(Top, next)
             [] x = 3 -> stack # <<>> /\ Top \in Terminals /\ ~Matches(Top, next)
             [] OTHER -> stack # <<>> /\ Top \notin Terminals}) = 1
\* nothing but names and strings carries what a writer chose
Small == Len(stack) < 40
Ends == <>(verdict # "")
=============================================================================
