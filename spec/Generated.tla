------------------------------ MODULE Generated ------------------------------
(* What a generated compiler asks of its user (P16): the functions it        *)
(* declares and calls, with their signatures, as a function of the           *)
(* specification.                                                            *)
(*                                                                          *)
(* A specification is one of DslRules, with the spellings that generated     *)
(* names keep: pass.on (name), pass.fn (function, "" if not given), uids in  *)
(* capitals (.up), phase.og (gate function, "" if not given), enum.on.       *)
EXTENDS DslRules, TLC

Fn(name, ret, params, kind) == [name |-> name, ret |-> ret, params |-> params, kind |-> kind]
Node == "node_st *"

(* ---- actions ---- *)
PassFns(S) == {Fn(IF p.func # "" THEN p.fn ELSE p.up \o p.on, Node, <<Node>>, "pass") : p \in Ran(S.passes)}
Targets(S, t) == IF t.all THEN NodeNames(S) ELSE Value(S, t.expr)
HandlerFns(S) == UNION {{Fn(t.up \o n, Node, <<Node>>, "trav") : n \in Targets(S, t)} : t \in Ran(S.travs)}
\* called around every run of a traversal with data
DataFns(S) == UNION {{Fn(t.up \o f, "void", <<>>, "data") : f \in {"init", "fini"}} : t \in {u \in Ran(S.travs) : u.data # <<>>}}
GateFns(S) == {Fn(p.og, "bool", <<>>, "gate") : p \in {q \in Ran(S.phases) : q.og # ""}}

(* ---- equations ---- *)
PrimC == [int |-> "int", bool |-> "bool", float |-> "float", double |-> "double",
          int8 |-> "int8_t", int16 |-> "int16_t", int32 |-> "int32_t", int64 |-> "int64_t",
          uint8 |-> "uint8_t", uint16 |-> "uint16_t", uint32 |-> "uint32_t", uint64 |-> "uint64_t"]
CType(S, a) == CASE a.kind = "prim" -> PrimC[a.ref]
                 [] a.kind = "string" -> "char *"
                 [] a.kind = "user" -> a.ref
                 [] IsLink(S, a) -> Node
                 [] OTHER -> "enum " \o (CHOOSE e \in Ran(S.enums) : e.name = a.ref).on
\* a child that is there at all times
Present(x, who) == \E c \in Ran(x.children) : c.name = who /\ \E l \in Ran(c.lts) : l.kind = "mandatory" /\ l.lo = <<>> /\ l.hi = <<>>
\* the children an equation takes values from that may be absent, in order
RECURSIVE Absent(_, _)
Absent(x, args) ==
    IF args = <<>> THEN <<>>
    ELSE LET r == Absent(x, SubSeq(args, 1, Len(args) - 1))
             g == args[Len(args)]
         IN IF g.who = "" \/ Present(x, g.who) \/ g.who \in Ran(r) THEN r ELSE Append(r, g.who)
\* a function for every choice of the children that are not there
EquationFns(S, x, q) ==
    LET opt == Absent(x, q.args)
        this(w) == IF w = "" THEN "this" ELSE w
        typ(g) == CType(S, CHOOSE a \in AttrsAt(S, x, g.who) : a.name = g.attr)
        left(N) == SelectSeq(q.args, LAMBDA g : g.who \notin N)
        suffix(N) == FoldLeft(LAMBDA s, c : IF c \in N THEN s \o "_" \o c \o "_NULL" ELSE s, "", opt)
    IN {Fn("EVAL" \o x.name \o "_" \o this(q.who) \o "_" \o q.attr \o suffix(N), typ(q),
           [i \in DOMAIN left(N) |-> typ(left(N)[i])], "equation") : N \in SUBSET Ran(opt)}
EqFns(S) == UNION {UNION {EquationFns(S, x, q) : q \in Ran(x.eqs)} : x \in Ran(S.nodes)}

\* what the phase driver calls at a breakpoint
DriverFns == {Fn("BreakpointHandler", "void", <<Node>>, "driver")}

Functions(S) == DriverFns \cup PassFns(S) \cup HandlerFns(S) \cup DataFns(S) \cup GateFns(S) \cup EqFns(S)
NamesOf(F) == {f.name : f \in F}
\* names that say what the function is for; two functions may have the same
\* signature but never the same name
Unambiguous(S) == Cardinality(NamesOf(Functions(S))) = Cardinality(Functions(S))

(* ---- what is to be observed ---- *)
\* sequence s holds every element of X once and nothing else
OnceEach(s, X) == Ran(s) = X /\ Len(s) = Cardinality(X)
Wrong(S, o) ==
    LET F == Functions(S)
        N == NamesOf(F)
    IN (IF o.broken # <<>> THEN {"does not compile"} ELSE {})
       \cup (IF o.twice # <<>> THEN {"defined twice"} ELSE {})
       \cup (IF ~(Ran(o.missing) \subseteq N) THEN {"needs a function that is not declared"} ELSE {})
       \cup (IF Ran(o.undeclared) \cap NamesOf({f \in F : f.kind \notin {"data", "driver"}}) # {} THEN {"not declared in a header"} ELSE {})
       \cup (IF o.conflict THEN {"other signature"} ELSE {})
       \cup (IF ~o.links THEN {"does not link"} ELSE {})
       \cup (IF o.links /\ ~o.starts THEN {"does not start"} ELSE {})
       \cup (IF ~OnceEach(o.skeleton, NamesOf({f \in F : f.kind \notin {"gate", "driver"}})) THEN {"skeletons"} ELSE {})
       \cup (IF o.skelconflict THEN {"skeletons do not compile"} ELSE {})
       \cup (IF ~o.skelstarts THEN {"skeletons do not start"} ELSE {})
       \cup (IF o.regen # <<>> THEN {"generated again differs"} ELSE {})
==============================================================================
