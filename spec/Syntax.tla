------------------------------- MODULE Syntax -------------------------------
(* Reading a text as a specification (P24): the tokens of the language, what *)
(* lies between them, and the sentences they make up, as an automaton that   *)
(* reads one token after the other with a stack of what is still to come.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Types == {"bool", "string", "int", "float", "double", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64"}
Keywords == Types \cup
    {"args", "attributes", "children", "constructor", "cycle", "enum", "equations", "inherited", "mandatory", "node", "nodeset",
     "nodes", "pass", "passes", "phase", "phases", "actions", "prefix", "subphases", "synthesized", "this", "to", "traversal",
     "travdata", "values", "info", "func", "root", "start", "uint", "lifetime", "disallowed", "optional", "allowed", "false",
     "true", "gate", "user", "uid", "NULL"}
\* words that can not be names, since the names end up in C
CWords == {"auto", "break", "case", "char", "const", "continue", "default", "do", "double", "else", "enum", "extern", "float",
           "for", "goto", "if", "inline", "int", "long", "register", "restrict", "return", "short", "signed", "sizeof", "static",
           "struct", "switch", "typedef", "union", "unsigned", "void", "volatile", "while"}
Punctuation == {"(", ")", "[", "]", "{", "}", ",", "=", ";", "!", "|", "&", "-", ".", "->"}
\* kinds of tokens: keywords, punctuation, and
Other == {"id", "str", "num", "eof",
          "word",   \* a word that is no name (of C)
          "bad"}    \* what is no token at all
Kinds == Keywords \cup Punctuation \cup Other
Terminals == Keywords \cup Punctuation \cup {"id", "str", "name"}
\* among the values of an enum, every word is a name
Matches(s, k) == s = k \/ (s = "name" /\ k \in ({"id", "word"} \cup Keywords) \ {"NULL"})

Lifetimes == {"disallowed", "mandatory", "allowed", "optional"}
No == <<"!">>       \* no sentence goes on like this
Either == <<"?">>   \* not settled: whether it does is not judged
Body(l) == <<l, "{", "<" \o l \o ">", "}">>

\* what a symbol becomes when k comes next
Expand(s, k) ==
    CASE s = "<spec>" -> IF k = "eof" THEN <<>> ELSE <<"<entry>", "<more>">>
      [] s = "<more>" -> IF k = ";" THEN <<";", "<spec>">> ELSE <<>>
      [] s = "<entry>" ->
            CASE k \in {"start", "phase", "cycle"} -> <<"<phase>">>
              [] k = "pass" -> <<"<pass>">>
              [] k = "traversal" -> <<"<traversal>">>
              [] k = "root" -> <<"root", "<node>">>
              [] k = "node" -> <<"<node>">>
              [] k = "nodeset" -> <<"nodeset", "id", "<nodeset>">>
              [] k = "enum" -> <<"enum", "id", "{", "<enum>">>
              [] OTHER -> No
      \* ---- phases
      [] s = "<phase>" -> CASE k = "start" -> <<"start", "<kind>">> [] OTHER -> <<"<kind>">>
      [] s = "<kind>" -> IF k \in {"phase", "cycle"} THEN <<k, "id", "{", "<phase1>">> ELSE No
      [] s = "<phase1>" -> IF k = "info" THEN <<"info", "=", "str", ",", "<phase2>">> ELSE <<"<phase2>">>
      [] s = "<phase2>" -> IF k = "uid" THEN <<"uid", "=", "id", ",", "<phase3>">> ELSE <<"<phase3>">>
      [] s = "<phase3>" -> CASE k = "gate" -> <<"gate", "=", "id", ",", "<phase4>">>
                             [] k = "," -> Either
                             [] OTHER -> <<"<phase4>">>
      [] s = "<phase4>" -> <<"actions", "{", "<action>", ";", "<actions>", "}", "}">>
      [] s = "<actions>" -> IF k = "}" THEN <<>> ELSE <<"<action>", ";", "<actions>">>
      [] s = "<action>" ->
            CASE k \in {"start", "phase", "cycle"} -> <<"<phase>">>
              [] k = "pass" -> <<"<pass>">>
              [] k = "traversal" -> <<"<traversal>">>
              [] OTHER -> <<"id">>
      \* ---- passes
      [] s = "<pass>" -> <<"pass", "id", "<pass0>">>
      [] s = "<pass0>" -> CASE k = "=" -> <<"=", "id">> [] k = "{" -> <<"{", "<pass1>">> [] OTHER -> <<>>
      [] s = "<pass1>" -> IF k = "info" THEN <<"info", "=", "str", ",", "<pass2>">> ELSE <<"<pass2>">>
      [] s = "<pass2>" -> CASE k = "uid" -> <<"uid", "=", "id", "<pass3>">> [] OTHER -> <<"func", "=", "id", "}">>
      [] s = "<pass3>" -> IF k = "," THEN <<",", "func", "=", "id", "}">> ELSE <<"}">>
      \* ---- traversals
      [] s = "<traversal>" -> <<"traversal", "id", "{", "<trav1>">>
      [] s = "<trav1>" -> IF k = "info" THEN <<"info", "=", "str", ",", "<trav2>">> ELSE <<"<trav2>">>
      [] s = "<trav2>" -> <<"uid", "=", "id", "<trav3>">>
      [] s = "<trav3>" -> IF k = "," THEN <<",", "<trav4>">> ELSE <<"}">>
      [] s = "<trav4>" -> CASE k = "nodes" -> <<"nodes", "=", "<expr>", "<trav5>">> [] OTHER -> Body("travdata") \o <<"}">>
      [] s = "<trav5>" -> IF k = "," THEN <<",">> \o Body("travdata") \o <<"}">> ELSE <<"}">>
      [] s = "<travdata>" -> <<"<typed>", "<travdatas>">>
      [] s = "<travdatas>" -> IF k = "," THEN <<",", "<typed>", "<travdatas>">> ELSE <<>>
      [] s = "<typed>" -> CASE k \in Types -> <<k, "id">> [] k = "user" -> <<"user", "id", "id">> [] OTHER -> <<"id", "id">>
      \* ---- sets
      [] s = "<expr>" -> <<"<prim>", "<ops>">>
      [] s = "<ops>" -> IF k \in {"|", "&", "-"} THEN <<k, "<prim>", "<ops>">> ELSE <<>>
      [] s = "<op>" -> IF k \in {"|", "&", "-"} THEN <<k>> ELSE No
      [] s = "<prim>" -> CASE k = "{" -> <<"{", "id", "<ids>", "}">>
                           \* parentheses around operations only
                           [] k = "(" -> <<"(", "<prim>", "<op>", "<prim>", "<ops>", ")">>
                           [] OTHER -> <<"id">>
      [] s = "<ids>" -> IF k = "," THEN <<",", "id", "<ids>">> ELSE <<>>
      [] s = "<nodeset>" -> CASE k = "=" -> <<"=", "<expr>">> [] OTHER -> <<"{", "<ns1>">>
      [] s = "<ns1>" -> IF k = "info" THEN <<"info", "=", "str", ",", "<ns2>">> ELSE <<"<ns2>">>
      [] s = "<ns2>" -> <<"nodes", "=", "<expr>", "<ns3>">>
      [] s = "<ns3>" -> IF k = "," THEN <<",">> \o Body("attributes") \o <<"}">> ELSE <<"}">>
      \* ---- enums
      [] s = "<enum>" -> IF k = "info" THEN <<"info", "=", "str", ",", "<enum1>">> ELSE <<"<enum1>">>
      [] s = "<enum1>" -> <<"prefix", "=", "id", ",", "values", "{", "name", "<names>", "}", "}">>
      [] s = "<names>" -> IF k = "," THEN <<",", "name", "<names>">> ELSE <<>>
      \* ---- nodes: children, attributes, equations, lifetimes in this order
      [] s = "<node>" -> <<"node", "id", "{", "<node1>">>
      [] s = "<node1>" -> CASE k = "children" -> Body(k) \o <<"<node2>">>
                            [] k = "attributes" -> Body(k) \o <<"<node4>">>
                            [] k = "equations" -> Body(k) \o <<"<node7>">>
                            [] k = "lifetime" -> Either
                            [] OTHER -> <<"}">>
      [] s = "<node2>" -> IF k = "," THEN <<",", "<node3>">> ELSE <<"}">>
      [] s = "<node3>" -> CASE k = "attributes" -> Body(k) \o <<"<node4>">>
                            [] k = "equations" -> Body(k) \o <<"<node5>">>
                            [] k = "}" -> Either
                            [] OTHER -> Body("lifetime") \o <<"}">>
      [] s = "<node4>" -> IF k = "," THEN <<",", "<node4b>">> ELSE <<"}">>
      [] s = "<node4b>" -> CASE k = "equations" -> Body(k) \o <<"<node5>">>
                             [] k = "}" -> Either
                             [] OTHER -> Body("lifetime") \o <<"}">>
      [] s = "<node5>" -> IF k = "," THEN <<",", "<node6>">> ELSE <<"}">>
      [] s = "<node6>" -> IF k = "}" THEN Either ELSE Body("lifetime") \o <<"}">>
      [] s = "<node7>" -> IF k = "," THEN Either ELSE <<"}">>
      [] s = "<children>" -> <<"<child>", "<childs>">>
      [] s = "<childs>" -> IF k = "," THEN <<",", "<child>", "<childs>">> ELSE <<>>
      [] s = "<child>" -> <<"id", "id", "<copt>">>
      [] s = "<copt>" -> IF k = "{" THEN <<"{", "<copt1>">> ELSE <<>>
      [] s = "<copt1>" -> CASE k = "constructor" -> <<k, "<copt2>">>
                            [] k \in Lifetimes -> <<"<lifetime>", "}">>
                            [] OTHER -> <<"}">>
      [] s = "<copt2>" -> IF k = "," THEN <<",", "<lifetime>", "}">> ELSE <<"}">>
      [] s = "<attributes>" -> <<"<attribute>", "<attribs>">>
      [] s = "<attribs>" -> IF k = "," THEN <<",", "<attribute>", "<attribs>">> ELSE <<>>
      [] s = "<attribute>" -> <<"<typed>", "<aopt>">>
      [] s = "<aopt>" -> IF k = "{" THEN <<"{", "<aopt1>">> ELSE <<>>
      [] s = "<aopt1>" -> IF k = "}" THEN <<"}">> ELSE <<"<option>", "<aopt2>">>
      [] s = "<aopt2>" -> IF k = "," THEN <<",", "<aopt3>">> ELSE <<"}">>
      [] s = "<aopt3>" -> IF k = "}" THEN Either ELSE <<"<option>", "<aopt2>">>
      [] s = "<option>" -> CASE k \in {"constructor", "inherited", "synthesized"} -> <<k>>
                             [] OTHER -> <<"<life>">>
      [] s = "<equations>" -> <<"<equation>", "<equats>">>
      [] s = "<equats>" -> IF k = "," THEN <<",", "<equation>", "<equats>">> ELSE <<>>
      [] s = "<equation>" -> <<"<ref>", "=", "{", "<args>", "}">>
      [] s = "<args>" -> IF k = "}" THEN <<>> ELSE <<"args", "=", "{", "<refs>", "}">>
      [] s = "<refs>" -> IF k = "}" THEN <<>> ELSE <<"<ref>", "<refs1>">>
      [] s = "<refs1>" -> IF k = "," THEN <<",", "<ref>", "<refs1>">> ELSE <<>>
      [] s = "<ref>" -> CASE k = "this" -> <<"this", ".", "id">> [] OTHER -> <<"id", ".", "id">>
      \* ---- lifetimes
      [] s = "<lifetime>" -> <<"<life>", "<lives>">>
      [] s = "<lives>" -> IF k = "," THEN <<",", "<life>", "<lives>">> ELSE <<>>
      [] s = "<life>" -> CASE k \in {"disallowed", "mandatory"} -> <<k, "<range>">>
                           [] k \in {"allowed", "optional"} -> <<k, "<lo>", "->", "<hi>">>
                           [] OTHER -> No
      [] s = "<range>" -> CASE k \in {"(", "["} -> <<"<lo>", "->", "<hi>">>
                            [] k \in {"->", ")", "id"} -> Either
                            [] OTHER -> <<>>
      [] s = "<lo>" -> CASE k = "(" -> <<"(", "<lo1>">>
                         [] k = "[" -> <<"[", "<path>">>
                         [] k \in {"->", ")", "id"} -> Either
                         [] OTHER -> No
      [] s = "<lo1>" -> IF k = "->" THEN <<>> ELSE <<"<path>">>
      [] s = "<hi>" -> CASE k = ")" -> <<")">>
                         [] k = "id" -> <<"<path>", "<hi1>">>
                         [] k \in {"(", "[", ",", "}"} -> Either
                         [] OTHER -> No
      [] s = "<hi1>" -> IF k = "]" THEN <<"]">> ELSE <<")">>
      [] s = "<path>" -> <<"id", "<path1>">>
      [] s = "<path1>" -> IF k = "." THEN <<".", "<path>">> ELSE <<>>

VARIABLES stack,    \* what is to come
          verdict   \* "", "yes", "no", "either"
reading == <<stack, verdict>>
Start == stack = <<"<spec>">> /\ verdict = ""
Say(v) == verdict' = v /\ UNCHANGED stack
Top == Head(stack)

\* k comes next; it is taken if it is what must come (Take), else the top of
\* the stack becomes something else (Turn)
Finish(k) == verdict = "" /\ stack = <<>> /\ Say(IF k = "eof" THEN "yes" ELSE "no")
Take(k) == verdict = "" /\ stack # <<>> /\ Top \in Terminals /\ Matches(Top, k)
           /\ stack' = Tail(stack) /\ UNCHANGED verdict
Refuse(k) == verdict = "" /\ stack # <<>> /\ Top \in Terminals /\ ~Matches(Top, k) /\ Say("no")
Turn(k) == /\ verdict = "" /\ stack # <<>> /\ Top \notin Terminals
           /\ IF k \in {"bad", "word"} THEN Say("no")      \* no place for it whatever is to come
              ELSE LET x == Expand(Top, k)
                   IN  CASE x = No -> Say("no")
                         [] x = Either -> Say("either")
                         [] OTHER -> stack' = x \o Tail(stack) /\ UNCHANGED verdict
=============================================================================
