----------------------------- MODULE Traversal -----------------------------
(***************************************************************************)
(* Traversals over syntax trees.  The heap holds nodes                     *)
(*    id -> [t |-> type, c |-> <<child id or 0>>, v |-> value]             *)
(* A traversal type is [nodes |-> {types with a user function},            *)
(* data |-> has traversal data].  User functions (the environment) decide  *)
(* where to descend, what to start, what to change and what to return.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES TT,     \* the traversal types, a sequence
          heap,   \* the nodes: function from ids
          stk,    \* frames, innermost last
          ctl     \* what happens next: [c |-> kind, n |-> node id]
tvars == <<TT, heap, stk, ctl>>

\* frames (uniform records):
\*  k = "trav": n-th traversal type is active, with data d
\*  k = "auto": the framework descends through the children of n, i is next
\*  k = "user": the user's function runs on node n
\*  k = "kids": a user function on n descends through all children, i is next
\*  k = "desc": a user function descends from n into child i
\*  k = "opt" : a user function visits some node, result not stored
Fr(k, n, i, d) == [k |-> k, n |-> n, i |-> i, d |-> d]
Top == stk[Len(stk)]
Pop == SubSeq(stk, 1, Len(stk) - 1)
SetTop(f) == [stk EXCEPT ![Len(stk)] = f]
Ctl(c, n) == [c |-> c, n |-> n]

\* the innermost active traversal
Travs == {j \in DOMAIN stk : stk[j].k = "trav"}
CurJ == CHOOSE j \in Travs : \A m \in Travs : m <= j
Cur == stk[CurJ].n
Targeted(T, t) == t \in TT[T].nodes

\* is user code running: at top level, or on top of a user frame, or in init / fini
InUser == ctl.c \in {"user", "idle"}
\* where control goes when a frame is finished
Back(s) == IF s = <<>> THEN "idle" ELSE "user"

\* ---- starting and ending ------------------------------------------------
\* user code starts traversal T on node n (0: absent)
Start(T, n) == /\ InUser
               /\ stk' = Append(stk, Fr("trav", T, n, 0))
               /\ ctl' = IF TT[T].data THEN Ctl("init", n) ELSE Ctl("visit", n)
               /\ UNCHANGED <<TT, heap>>
\* the user's initialiser runs: it sees default values (0) and may set the data
Init0(T, seen, set) ==
               /\ ctl.c = "init" /\ T = Top.n /\ seen = Top.d
               /\ stk' = SetTop([Top EXCEPT !.d = set])
               /\ ctl' = Ctl("visit", ctl.n)
               /\ UNCHANGED <<TT, heap>>
\* the traversal is over: the finaliser sees the data for the last time
Fini(T, seen) == /\ ctl.c = "fini" /\ T = Top.n /\ seen = Top.d
                 /\ ctl' = Ctl("tend", ctl.n)
                 /\ UNCHANGED <<TT, heap, stk>>
\* and the starter gets the result
End(r) == /\ ctl.c = "tend" /\ r = ctl.n
          /\ stk' = Pop /\ ctl' = Ctl(Back(Pop), 0)
          /\ UNCHANGED <<TT, heap>>

\* ---- dispatch -------------------------------------------------------------
\* node ctl.n is reached
VisitAbsent == ctl.c = "visit" /\ ctl.n = 0 /\ ctl' = Ctl("ret", 0) /\ UNCHANGED <<TT, heap, stk>>
VisitAuto == /\ ctl.c = "visit" /\ ctl.n # 0 /\ ~Targeted(Cur, heap[ctl.n].t)
             /\ stk' = Append(stk, Fr("auto", ctl.n, 1, 0)) /\ ctl' = Ctl("kid", 0)
             /\ UNCHANGED <<TT, heap>>
\* the user's function for traversal T and type t is called on node n, sees data d
Enter(T, t, n, d) ==
             /\ ctl.c = "visit" /\ ctl.n # 0 /\ n = ctl.n
             /\ T = Cur /\ t = heap[n].t /\ Targeted(T, t) /\ d = stk[CurJ].d
             /\ stk' = Append(stk, Fr("user", n, 0, 0)) /\ ctl' = Ctl("user", 0)
             /\ UNCHANGED <<TT, heap>>
\* descending through all children, in order
NextKid == /\ ctl.c = "kid" /\ Top.i <= Len(heap[Top.n].c)
           /\ ctl' = Ctl("visit", heap[Top.n].c[Top.i])
           /\ UNCHANGED <<TT, heap, stk>>
AutoDone == /\ ctl.c = "kid" /\ Top.k = "auto" /\ Top.i > Len(heap[Top.n].c)
            /\ ctl' = Ctl("ret", Top.n) /\ stk' = Pop /\ UNCHANGED <<TT, heap>>
\* a visit returns ctl.n to the frame that made it
RetKid == /\ ctl.c = "ret" /\ Top.k \in {"auto", "kids"}
          /\ heap' = [heap EXCEPT ![Top.n].c[Top.i] = ctl.n]
          /\ stk' = SetTop([Top EXCEPT !.i = @ + 1])
          /\ ctl' = Ctl("kid", 0) /\ UNCHANGED TT
RetTrav == /\ ctl.c = "ret" /\ Top.k = "trav"
           /\ ctl' = IF TT[Top.n].data THEN Ctl("fini", ctl.n) ELSE Ctl("tend", ctl.n)
           /\ UNCHANGED <<TT, heap, stk>>
Silent == VisitAbsent \/ VisitAuto \/ NextKid \/ AutoDone \/ RetKid \/ RetTrav

\* ---- what a user function does on its node ---------------------------------
OnNode(n) == ctl.c = "user" /\ Top.k = "user" /\ Top.n = n
Kids(n) == /\ OnNode(n) /\ stk' = Append(stk, Fr("kids", n, 1, 0)) /\ ctl' = Ctl("kid", 0) /\ UNCHANGED <<TT, heap>>
KidsDone(n) == /\ ctl.c = "kid" /\ Top.k = "kids" /\ Top.n = n /\ Top.i > Len(heap[n].c)
               /\ stk' = Pop /\ ctl' = Ctl("user", 0) /\ UNCHANGED <<TT, heap>>
Desc(n, i) == /\ OnNode(n) /\ stk' = Append(stk, Fr("desc", n, i, 0))
              /\ ctl' = Ctl("visit", heap[n].c[i]) /\ UNCHANGED <<TT, heap>>
DescDone(n, i) == /\ ctl.c = "ret" /\ Top.k = "desc" /\ Top.n = n /\ Top.i = i
                  /\ heap' = [heap EXCEPT ![n].c[i] = ctl.n]
                  /\ stk' = Pop /\ ctl' = Ctl("user", 0) /\ UNCHANGED TT
Opt(m) == /\ ctl.c = "user" /\ stk' = Append(stk, Fr("opt", m, 0, 0)) /\ ctl' = Ctl("visit", m) /\ UNCHANGED <<TT, heap>>
OptDone(r) == /\ ctl.c = "ret" /\ Top.k = "opt" /\ r = ctl.n
              /\ stk' = Pop /\ ctl' = Ctl("user", 0) /\ UNCHANGED <<TT, heap>>
\* making nodes, storing a child, a value or traversal data, reading traversal data
New(ns) == /\ InUser
           /\ heap' = [x \in DOMAIN heap \cup {ns[j].id : j \in DOMAIN ns} |->
                        IF x \in DOMAIN heap THEN heap[x]
                        ELSE LET j == CHOOSE j \in DOMAIN ns : ns[j].id = x
                             IN  [t |-> ns[j].t, c |-> ns[j].c, v |-> ns[j].v]]
           /\ UNCHANGED <<TT, stk, ctl>>
SetChild(n, i, m) == InUser /\ heap' = [heap EXCEPT ![n].c[i] = m] /\ UNCHANGED <<TT, stk, ctl>>
SetValue(n, v) == InUser /\ heap' = [heap EXCEPT ![n].v = v] /\ UNCHANGED <<TT, stk, ctl>>
SetData(d) == ctl.c = "user" /\ TT[Cur].data /\ stk' = [stk EXCEPT ![CurJ].d = d] /\ UNCHANGED <<TT, heap, ctl>>
SeeData(T, d) == ctl.c = "user" /\ T = Cur /\ TT[Cur].data /\ d = stk[CurJ].d /\ UNCHANGED tvars
\* the function returns r, whatever that is
Leave(n, r) == /\ OnNode(n) /\ stk' = Pop /\ ctl' = Ctl("ret", r) /\ UNCHANGED <<TT, heap>>
=============================================================================
