----------------------------- MODULE Lifetimes -----------------------------
(***************************************************************************)
(* Consistency checking: lifetimes of nodes, children and attributes, and  *)
(* the types of children, enforced before every action of PhaseDriver.     *)
(*                                                                         *)
(* Declarations: a sequence of node types                                  *)
(*   [n |-> name, lt |-> <<lifetime, ...>>,                                *)
(*    c |-> <<[ty |-> <<admitted type names>>, lt |-> <<...>>], ...>>,     *)
(*    a |-> <<<<lifetime, ...>>, ...>>]                                    *)
(* A lifetime is [k |-> kind, lo |-> bound, hi |-> bound]; a bound is      *)
(*   [incl |-> BOOLEAN, path |-> <<names>>]  (empty path: start / end).    *)
(* A tree is a sequence of nodes, the first one the root:                  *)
(*   [t |-> type index, c |-> <<node index or 0>>, a |-> <<0 or 1>>]       *)
(***************************************************************************)
EXTENDS PhaseDriver

VARIABLES decl,     \* the declarations
          checking  \* is checking switched on

\* ---- bounds: the occurrence a path names ---------------------------------
\* uids is the function (sequence of pairs <<name, uid>>) of alternative names
Named(p, uids, i, x) == p[i].n = x \/ \E j \in DOMAIN uids : uids[j][1] = p[i].n /\ uids[j][2] = x
\* the first occurrence called x strictly inside occurrence i
FirstIn(p, uids, i, x) ==
    LET S == {j \in (i + 1)..(p[i].nxt - 1) : Named(p, uids, j, x)}
    IN  IF S = {} THEN 0 ELSE CHOOSE j \in S : \A m \in S : j <= m
RECURSIVE Resolve(_, _, _, _)
Resolve(p, uids, i, path) ==
    IF path = <<>> \/ i = 0 THEN i
    ELSE Resolve(p, uids, FirstIn(p, uids, i, Head(path)), Tail(path))

\* is action k inside the range of the lifetime?
InRange(p, uids, lt, k) ==
    /\ lt.lo.path = <<>> \/ LET i == Resolve(p, uids, 1, lt.lo.path)
                            IN  k >= (IF lt.lo.incl THEN i ELSE p[i].nxt)
    /\ lt.hi.path = <<>> \/ LET i == Resolve(p, uids, 1, lt.hi.path)
                            IN  k < (IF lt.hi.incl THEN p[i].nxt ELSE i)

\* may something be present / absent at action k
Obeys(p, uids, lt, k, present) ==
    LET r == InRange(p, uids, lt, k) IN
    CASE lt.k = "disallowed" -> r => ~present
      [] lt.k = "allowed"    -> ~r => ~present
      [] lt.k = "mandatory"  -> r => present
      [] lt.k = "optional"   -> ~r => present
AllObey(p, uids, lts, k, present) == \A j \in DOMAIN lts : Obeys(p, uids, lts[j], k, present)

NodeOk(p, uids, d, tr, m, k) ==
    LET nd == tr[m]
        D  == d[nd.t]
    IN  /\ AllObey(p, uids, D.lt, k, TRUE)
        /\ \A c \in DOMAIN D.c :
              /\ nd.c[c] # 0 => \E x \in DOMAIN D.c[c].ty : D.c[c].ty[x] = d[tr[nd.c[c]].t].n
              /\ AllObey(p, uids, D.c[c].lt, k, nd.c[c] # 0)
        /\ \A a \in DOMAIN D.a : AllObey(p, uids, D.a[a], k, nd.a[a] # 0)
Consistent(p, uids, d, tr, k) == \A m \in DOMAIN tr : NodeOk(p, uids, d, tr, m, k)
=============================================================================
