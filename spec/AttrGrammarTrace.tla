-------------------------- MODULE AttrGrammarTrace --------------------------
(* One evaluation of the attributes of a tree:                              *)
(* [spec, tree, plain, ev] with plain a sequence of [v, a, val], and events *)
(*   [k "call", x, who, a, nulls, args, ret]  the function of an equation   *)
(*        of node type x, the variant for the absent children nulls         *)
(*   [k "fin", v, a, by, val]  attribute a of node v read afterwards,       *)
(*        through the accessor of type or nodeset by                        *)
(*   [k "end"]                 the evaluation is over and everything read   *)
(* Values are strings; those returned are different from each other.        *)
EXTENDS AttrGrammar, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)

Info == [t \in DOMAIN Traces |->
    LET S == Traces[t].spec
        T == Traces[t].tree
    IN [plain |-> [p \in {<<q.v, q.a>> : q \in Ran(Traces[t].plain)} |->
                     (CHOOSE q \in Ran(Traces[t].plain) : <<q.v, q.a>> = p).val],
        \* the instance an event returned the value of
        fin |-> {<<e.val, e.v, e.a>> : e \in {f \in Ran(Traces[t].ev) : f.k = "fin" /\ f.by = T[f.v].x}},
        sets |-> [v \in DOMAIN T |-> {n \in Ran(S.nodesets) : T[v].x \in Members(S, n.name)}],
        inst |-> [i \in Instances(S, T) |->
                    LET w == Home(S, T, i)
                        q == Rule(S, T, w, i[2])
                    IN [p |-> w[1], who |-> w[2], needs |-> Needs(S, T, i), args |-> ArgsAt(T, w[1], q),
                        nulls |-> NullsAt(T, w[1], q)]]]]

VARIABLES t, l, val, idle
Ev == Traces[t].ev
S == Traces[t].spec
T == Traces[t].tree
I == Info[t]
Init == t \in DOMAIN Traces /\ l = 1 /\ val = <<>> /\ idle = {}

Values(as) == [n \in DOMAIN as |-> ValueOf(as[n], val, I.plain)]
Owners(ret) == {<<f[2], f[3]>> : f \in {g \in I.fin : g[1] = ret}}
Evaluate(e) ==
    LET o == Owners(e.ret) IN
    IF o # {}
    THEN \E i \in o :
         /\ o = {i} /\ i \notin DOMAIN val
         /\ I.inst[i].needs \subseteq DOMAIN val
         /\ T[I.inst[i].p].x = e.x /\ I.inst[i].who = e.who /\ i[2] = e.a
         /\ Ran(e.nulls) = I.inst[i].nulls
         /\ e.args = Values(I.inst[i].args)
         /\ val' = (i :> e.ret) @@ val /\ UNCHANGED idle
    \* for an absent child nothing is evaluated, though its equation may be;
    \* of several nodes where that can be, any will do
    ELSE LET ps == {p \in DOMAIN T :
               /\ T[p].x = e.x /\ e.who # "" /\ T[p].kids[e.who] = 0 /\ <<p, e.who, e.a>> \notin idle
               /\ LET q == Rule(S, T, <<p, e.who>>, e.a) IN
                    /\ DepsAt(S, T, p, q) \subseteq DOMAIN val
                    /\ Ran(e.nulls) = NullsAt(T, p, q)
                    /\ e.args = Values(ArgsAt(T, p, q))}
         IN /\ ps # {}
            /\ idle' = idle \cup {<<CHOOSE p \in ps : TRUE, e.who, e.a>>}
            /\ UNCHANGED val
Read(e) ==
    /\ <<e.v, e.a>> \in DOMAIN val /\ val[<<e.v, e.a>>] = e.val
    /\ \/ e.by = T[e.v].x
       \/ \E n \in I.sets[e.v] : n.name = e.by /\ \E a \in AttrsOfSet(S, n) : a.name = e.a
    /\ UNCHANGED <<val, idle>>
Next == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED t
        /\ LET e == Ev[l] IN
             CASE e.k = "call" -> Evaluate(e)
               [] e.k = "fin" -> Read(e)
               [] e.k = "end" -> DOMAIN val = DOMAIN I.inst /\ UNCHANGED <<val, idle>>
Accepted == l > Len(Ev) => PrintT(<<"ACCEPT", t>>)
Where == PrintT(<<"AT", l, <<DOMAIN val, idle>>>>)
=============================================================================
