----------------------------- MODULE DslRulesMC -----------------------------
(* Every specification one edit away from a given one: every name slot takes *)
(* every other name or a reserved word, every reference slot every name or   *)
(* one that does not exist, every root and start flag is flipped, every      *)
(* entity is dropped.  Prints each edit with its verdict; the conformance    *)
(* check applies the edit and runs cocogen on the result.                    *)
EXTENDS DslRules, TLC, Json, IOUtils

Bases == JsonDeserialize(IOEnv.BASES)

VARIABLES b, e

RECURSIVE At(_, _), Put(_, _, _)
At(x, p) == IF p = <<>> THEN x ELSE At(x[Head(p)], Tail(p))
Put(x, p, v) == IF p = <<>> THEN v ELSE [x EXCEPT ![Head(p)] = Put(@, Tail(p), v)]

Idx(s) == DOMAIN s
NameSlots(S) ==
    {<<"phases", i, "name">> : i \in Idx(S.phases)}
    \cup {<<"phases", i, "uid">> : i \in {j \in Idx(S.phases) : S.phases[j].uid # ""}}
    \cup {<<"passes", i, "name">> : i \in Idx(S.passes)}
    \cup {<<"passes", i, "uid">> : i \in {j \in Idx(S.passes) : S.passes[j].uid # ""}}
    \cup {<<"travs", i, "name">> : i \in Idx(S.travs)}
    \cup {<<"travs", i, "uid">> : i \in Idx(S.travs)}
    \cup {<<"nodes", i, "name">> : i \in Idx(S.nodes)}
    \cup {<<"nodesets", i, "name">> : i \in Idx(S.nodesets)}
    \cup {<<"enums", i, "name">> : i \in Idx(S.enums)}
UidSlots(S) == {p \in NameSlots(S) : p[3] = "uid"}
FuncSlots(S) == {<<"passes", i, "func">> : i \in {j \in Idx(S.passes) : S.passes[j].func # ""}}
PrefixSlots(S) == {<<"enums", i, "prefix">> : i \in Idx(S.enums)}
\* name slots of one entity that must differ from each other
LocalSlots(S) ==
    {{<<"nodes", i, "children", j, "name">> : j \in Idx(S.nodes[i].children)}
     \cup {<<"nodes", i, "attrs", j, "name">> : j \in Idx(S.nodes[i].attrs)} : i \in Idx(S.nodes)}
    \cup {{<<"nodesets", i, "attrs", j, "name">> : j \in Idx(S.nodesets[i].attrs)} : i \in Idx(S.nodesets)}
    \cup {{<<"travs", i, "data", j, "name">> : j \in Idx(S.travs[i].data)} : i \in Idx(S.travs)}
ValueSlots(S) == {{<<"enums", i, "values", j>> : j \in Idx(S.enums[i].values)} : i \in Idx(S.enums)}

RECURSIVE ExprSlots(_, _)
ExprSlots(x, p) == CASE x.op = "lit" -> {p \o <<"ids", i>> : i \in DOMAIN x.ids}
                     [] x.op = "ref" -> {p \o <<"id">>}
                     [] OTHER -> ExprSlots(x.l, p \o <<"l">>) \cup ExprSlots(x.r, p \o <<"r">>)
LtSlots(lts, p) == UNION {{p \o <<i, k, j>> : j \in DOMAIN lts[i][k]} : i \in DOMAIN lts, k \in {"lo", "hi"}}
RefSlots(S) ==
    UNION {{<<"phases", i, "acts", j>> : j \in Idx(S.phases[i].acts)} : i \in Idx(S.phases)}
    \cup UNION {ExprSlots(S.travs[i].expr, <<"travs", i, "expr">>) : i \in {j \in Idx(S.travs) : ~S.travs[j].all}}
    \cup UNION {{<<"travs", i, "data", j, "ref">> : j \in {k \in Idx(S.travs[i].data) : S.travs[i].data[k].kind = "ref"}}
                : i \in Idx(S.travs)}
    \cup UNION {ExprSlots(S.nodesets[i].expr, <<"nodesets", i, "expr">>) : i \in Idx(S.nodesets)}
    \cup UNION {{<<t, i, "attrs", j, "ref">> : j \in {k \in Idx(S[t][i].attrs) : S[t][i].attrs[k].kind = "ref"}}
                : t \in {"nodes"}, i \in Idx(S.nodes)}
    \cup UNION {{<<t, i, "attrs", j, "ref">> : j \in {k \in Idx(S[t][i].attrs) : S[t][i].attrs[k].kind = "ref"}}
                : t \in {"nodesets"}, i \in Idx(S.nodesets)}
    \cup UNION {{<<"nodes", i, "children", j, "type">> : j \in Idx(S.nodes[i].children)} : i \in Idx(S.nodes)}
    \cup UNION {LtSlots(S.nodes[i].lts, <<"nodes", i, "lts">>) : i \in Idx(S.nodes)}
    \cup UNION {LtSlots(S.nodes[i].children[j].lts, <<"nodes", i, "children", j, "lts">>) :
                <<i, j>> \in {<<k, l>> \in Idx(S.nodes) \X (1..9) : l \in Idx(S.nodes[k].children)}}
    \cup UNION {LtSlots(S.nodes[i].attrs[j].lts, <<"nodes", i, "attrs", j, "lts">>) :
                <<i, j>> \in {<<k, l>> \in Idx(S.nodes) \X (1..9) : l \in Idx(S.nodes[k].attrs)}}

Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Kinds == {"phases", "passes", "travs", "nodes", "nodesets", "enums"}

\* [class, path, val]; the class says what the edit is meant to do
Edits(S) ==
    {[class |-> "none", path |-> <<>>, val |-> ""]}
    \cup {[class |-> "clash", path |-> p, val |-> At(S, q)] : <<p, q>> \in {<<x, y>> \in NameSlots(S) \X NameSlots(S) : x # y}}
    \cup {[class |-> "clash", path |-> p, val |-> At(S, q)] :
           <<p, q>> \in {<<x, y>> \in FuncSlots(S) \X FuncSlots(S) : x # y}
                        \cup {<<x, y>> \in PrefixSlots(S) \X PrefixSlots(S) : x # y}
                        \cup UNION {{<<x, y>> \in Z \X Z : x # y} : Z \in LocalSlots(S) \cup ValueSlots(S)}}
    \cup {[class |-> "fresh", path |-> p, val |-> "fresh"] :
           p \in UNION (LocalSlots(S) \cup ValueSlots(S)) \cup FuncSlots(S) \cup PrefixSlots(S)}
    \cup {[class |-> "word", path |-> p, val |-> w] : p \in {<<"nodes", 2, "name">>, <<"phases", 2, "name">>,
            <<"travs", 1, "name">>, <<"enums", 1, "prefix">>} \cup
            {<<"nodes", i, "children", 1, "name">> : i \in {j \in Idx(S.nodes) : S.nodes[j].children # <<>>}}, w \in Words}
    \cup {[class |-> "word", path |-> p, val |-> w] : p \in NameSlots(S), w \in {"args", "node", "values", "uid", "for", "static"}}
    \cup {[class |-> "value", path |-> <<"enums", 1, "values", 1>>, val |-> w] : w \in Words \ {"enum", "values"}}
    \cup {[class |-> "uid", path |-> p, val |-> w] : p \in UidSlots(S), w \in ReservedUids}
    \cup {[class |-> "prefix", path |-> p, val |-> w] : p \in PrefixSlots(S), w \in ReservedPrefixes}
    \cup {[class |-> "ref", path |-> p, val |-> At(S, q)] : p \in RefSlots(S), q \in NameSlots(S)}
    \cup {[class |-> "undefined", path |-> p, val |-> "nowhere"] : p \in RefSlots(S)}
    \cup {[class |-> "flag", path |-> <<"nodes", i, "root">>, val |-> ""] : i \in Idx(S.nodes)}
    \cup {[class |-> "flag", path |-> <<"phases", i, "start">>, val |-> ""] : i \in Idx(S.phases)}
    \cup UNION {{[class |-> "drop", path |-> <<k, i>>, val |-> ""] : i \in Idx(S[k])} : k \in Kinds}

Edited(S, x) ==
    CASE x.class = "none" -> S
      [] x.class = "flag" -> Put(S, x.path, ~At(S, x.path))
      [] x.class = "drop" -> [S EXCEPT ![x.path[1]] = Drop(@, x.path[2])]
      [] OTHER -> Put(S, x.path, x.val)

Init == /\ b \in DOMAIN Bases
        /\ e \in Edits(Bases[b])
Next == UNCHANGED <<b, e>>

S1 == Edited(Bases[b], e)
Says == LET v == Verdict(S1) IN
    PrintT(<<"EDIT", b, e.class, ToString(e.path), e.val, v, Reasons(S1)>>)
\* what an edit of a class must come to
Meant == LET v == Verdict(S1) IN
    CASE e.class = "none" -> v = "accept"
      [] e.class \in {"clash", "word", "uid", "prefix", "undefined", "flag"} ->
            v = "reject" \/ (e.class = "word" /\ e.val = At(Bases[b], e.path))
      [] e.class = "value" -> v = "accept"
      [] OTHER -> TRUE
=============================================================================
