---------------------------- MODULE PhaseDriver ----------------------------
(***************************************************************************)
(* What running a generated compiler means: the action structure of a      *)
(* specification, numbered depth first, interpreted with gates, cycles,    *)
(* error signals and breakpoints.  The environment (the user's functions)  *)
(* chooses gate verdicts, trees, notifications and error signals.          *)
(*                                                                         *)
(* A structure is a record [start |-> d, defs |-> <<def, ...>>] with       *)
(*   def == [n |-> name, k |-> "phase" | "cycle" | "leaf",                 *)
(*           g |-> gated?, a |-> <<def index, ...>>]                       *)
(* and, for a leaf, optionally t |-> is it a traversal?                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

\* ---- the static numbering: preorder listing of all occurrences ----------
RECURSIVE Flat(_, _, _, _, _), FlatAll(_, _, _, _, _)
\* occurrences of definition d at depth dep below occurrence par, numbered from id
Flat(defs, d, dep, par, id) ==
    LET below == FlatAll(defs, defs[d].a, dep + 1, id, id + 1)
    IN  <<[n |-> defs[d].n, k |-> defs[d].k, g |-> defs[d].g,
           t |-> IF "t" \in DOMAIN defs[d] THEN defs[d].t ELSE FALSE, dep |-> dep, par |-> par, nxt |-> id + 1 + Len(below)]>> \o below
FlatAll(defs, as, dep, par, id) ==
    IF as = <<>> THEN <<>>
    ELSE LET h == Flat(defs, Head(as), dep, par, id)
         IN  h \o FlatAll(defs, Tail(as), dep, par, id + Len(h))

Listed(st) == Flat(st.defs, st.start, 0, 0, 1)

\* names of the phases around occurrence i, outermost first
RECURSIVE Around(_, _)
Around(p, i) == IF p[i].par = 0 THEN <<>> ELSE Append(Around(p, p[i].par), p[p[i].par].n)

RECURSIVE SubSeqOf(_, _)
SubSeqOf(a, b) == IF a = <<>> THEN TRUE
                  ELSE IF b = <<>> THEN FALSE
                  ELSE IF Head(a) = Head(b) THEN SubSeqOf(Tail(a), Tail(b))
                  ELSE SubSeqOf(a, Tail(b))

\* a breakpoint is [id |-> n] (0: none) with path |-> <<names>> (empty: none)
Designates(p, b, i) ==
    \/ b.id = i
    \/ /\ b.path # <<>>
       /\ p[i].n = b.path[Len(b.path)]
       /\ SubSeqOf(SubSeq(b.path, 1, Len(b.path) - 1), Around(p, i))

\* ---- state ---------------------------------------------------------------
VARIABLES P,      \* the structure, as its listing
          ctl,    \* what happens next: [c |-> kind, i |-> occurrence]
          stack,  \* open phases, innermost last: [i, iter, chg, perr]
          tree,   \* identity of the current tree
          max,    \* configured maximum number of iterations
          bp      \* breakpoint

pdvars == <<P, ctl, stack, tree, max, bp>>

Top == stack[Len(stack)]
Ctl(c, i) == [c |-> c, i |-> i]
SetTop(f) == [stack EXCEPT ![Len(stack)] = f]

InitPD(st, m, b) == /\ P = Listed(st) /\ ctl = Ctl("idle", 0) /\ stack = <<>>
                    /\ tree = 0 /\ max = m /\ bp = b

\* a run starts on a tree
Start(tr) == /\ ctl.c = "idle"
             /\ tree' = tr /\ stack' = <<>> /\ ctl' = Ctl("disp", 1)
             /\ UNCHANGED <<P, max, bp>>

\* an action is reached
Dispatch == /\ ctl.c = "disp"
            /\ LET o == P[ctl.i] IN
               IF o.k = "leaf" THEN ctl' = Ctl("leaf", ctl.i) /\ stack' = stack
               ELSE IF o.g THEN ctl' = Ctl("gate", ctl.i) /\ stack' = stack
               ELSE /\ ctl' = Ctl("body", ctl.i)
                    /\ stack' = Append(stack, [i |-> ctl.i, iter |-> 1, chg |-> FALSE, perr |-> FALSE])
            /\ UNCHANGED <<P, tree, max, bp>>

\* the gate of the phase that is reached is asked, once
Gate(v) == /\ ctl.c = "gate"
           /\ IF v THEN /\ ctl' = Ctl("body", ctl.i)
                        /\ stack' = Append(stack, [i |-> ctl.i, iter |-> 1, chg |-> FALSE, perr |-> FALSE])
                   ELSE ctl' = Ctl("after", ctl.i) /\ stack' = stack
           /\ UNCHANGED <<P, tree, max, bp>>

\* one pass through the body starts
Body == /\ ctl.c = "body"
        /\ ctl' = Ctl("disp", ctl.i + 1)       \* a phase has at least one action
        /\ UNCHANGED <<P, stack, tree, max, bp>>

\* a pass or traversal is performed: it receives `in', returns `out', and
\* may notify a change, signal errors and set the maximum number of cycles
Leaf(out, notify, perr, aerr, mx) ==
    /\ ctl.c = "leaf"
    /\ tree' = out
    /\ max' = IF mx < 0 THEN max ELSE mx
    /\ stack' = [j \in DOMAIN stack |->
                   [stack[j] EXCEPT !.chg = @ \/ notify,
                                    !.perr = @ \/ (perr /\ j = Len(stack))]]
    /\ ctl' = IF aerr THEN Ctl("fail", 0) ELSE Ctl("after", ctl.i)
    /\ UNCHANGED <<P, bp>>

\* there need not be a tree: a traversal has then nothing to visit, and none of
\* its functions is called; a pass is given what there is
NoTree == -1
Gone == ctl.c = "leaf" /\ P[ctl.i].t /\ tree = NoTree
SkipLeaf == /\ Gone /\ ctl' = Ctl("after", ctl.i)
            /\ UNCHANGED <<P, stack, tree, max, bp>>

\* action ctl.i is complete: stop at the breakpoint or go on
After == /\ ctl.c = "after"
         /\ IF Designates(P, bp, ctl.i) THEN ctl' = Ctl("bp", ctl.i)
            ELSE IF stack = <<>> THEN ctl' = Ctl("ret", 0)
            ELSE IF P[ctl.i].nxt < P[Top.i].nxt THEN ctl' = Ctl("disp", P[ctl.i].nxt)
            ELSE ctl' = Ctl("endbody", Top.i)
         /\ UNCHANGED <<P, stack, tree, max, bp>>

\* the body of the innermost phase has been performed; it is performed again or not
MustRepeat == P[ctl.i].k = "cycle" /\ Top.chg /\ Top.iter < max
EndBodyWith(again) ==
           /\ ctl.c = "endbody"
           /\ IF again
              THEN /\ stack' = SetTop([Top EXCEPT !.iter = @ + 1, !.chg = FALSE])
                   /\ ctl' = Ctl("body", ctl.i)
              ELSE /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
                   /\ ctl' = IF Top.perr THEN Ctl("fail", 0) ELSE Ctl("after", ctl.i)
           /\ UNCHANGED <<P, tree, max, bp>>
EndBody == ctl.c = "endbody" /\ EndBodyWith(MustRepeat)
\* a weaker specification that leaves the number of iterations open, for
\* deciding the other properties independently of that one
EndBodyLoose == /\ ctl.c = "endbody"
                /\ \/ EndBodyWith(FALSE)
                   \/ /\ P[ctl.i].k = "cycle"
                      /\ ctl' = Ctl("body", ctl.i) /\ UNCHANGED <<P, stack, tree, max, bp>>

\* the breakpoint handler is called with the current tree
Break == ctl.c = "bp" /\ ctl' = Ctl("stopped", 0) /\ UNCHANGED <<P, stack, tree, max, bp>>
\* the run returns to its caller
Return == ctl.c = "ret" /\ ctl' = Ctl("idle", 0) /\ UNCHANGED <<P, stack, tree, max, bp>>
\* the process ends: success after a breakpoint or when the caller is done
Exit(ok) == /\ \/ ctl.c \in {"stopped", "idle"} /\ ok
               \/ ctl.c = "fail" /\ ~ok
            /\ ctl' = Ctl("exited", 0) /\ UNCHANGED <<P, stack, tree, max, bp>>

Silent == Dispatch \/ Body \/ After

\* the printed structure: everything below the start phase
Listing(p) == [j \in 1..(Len(p) - 1) |-> <<j + 1, p[j + 1].dep, p[j + 1].n>>]
=============================================================================
