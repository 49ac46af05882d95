--------------------------- MODULE PhaseDriverMC ---------------------------
(* Exhaustive check of PhaseDriver over small structures (JSON, env INPUT: *)
(* an array of [start, defs]) under every behaviour of the environment,    *)
(* with the observable history kept in `hist'.                             *)
EXTENDS PhaseDriver, Json, IOUtils, TLC, SequencesExt
CONSTANTS MaxLen, Trees, Nulls, Maxes, Errors, Bps

MCStructs == JsonDeserialize(IOEnv.INPUT)
VARIABLE hist
vars == <<pdvars, hist>>

NoBp == [id |-> 0, path |-> <<>>]
Progs == [j \in DOMAIN MCStructs |-> Listed(MCStructs[j])]
BpChoices(st) == IF ~Bps THEN {NoBp}
                 ELSE {NoBp} \cup {[id |-> k, path |-> <<>>] : k \in 1..(Len(Progs[st]) + 1)}
                      \cup {[id |-> 0, path |-> Append(Around(Progs[st], k), Progs[st][k].n)] : k \in DOMAIN Progs[st]}
                      \cup {[id |-> 0, path |-> <<Progs[st][k].n>>] : k \in DOMAIN Progs[st]}

Init == /\ \E st \in DOMAIN MCStructs : \E m \in Maxes : \E b \in BpChoices(st) : InitPD(MCStructs[st], m, b)
        /\ hist = <<>>
Ev(e) == hist' = Append(hist, e)

\* ghost events mark iterations, so that the properties can speak of them
Next ==
    \/ hist = <<>> /\ Start(0) /\ Ev([e |-> "start", in |-> 0])
    \/ Dispatch /\ (IF P[ctl.i].k # "leaf" /\ ~P[ctl.i].g
                    THEN Ev([e |-> "open", i |-> ctl.i]) ELSE UNCHANGED hist)
    \/ \E v \in BOOLEAN : Gate(v) /\ Ev([e |-> "gate", i |-> ctl.i, v |-> v])
    \/ Body /\ Ev([e |-> "iter", i |-> ctl.i])
    \/ \E out \in (IF Nulls THEN Trees \cup {NoTree} ELSE Trees), nt \in BOOLEAN, pe \in Errors, ae \in Errors :
          ~Gone /\ Leaf(out, nt, pe, ae, -1) /\ Ev([e |-> "run", i |-> ctl.i, in |-> tree, out |-> out,
                                           nt |-> nt, pe |-> pe, ae |-> ae])
    \/ SkipLeaf /\ Ev([e |-> "skip", i |-> ctl.i])
    \/ After /\ UNCHANGED hist
    \/ EndBody /\ Ev([e |-> "enditer", i |-> ctl.i])
    \/ Break /\ Ev([e |-> "bp", in |-> tree])
    \/ Return /\ Ev([e |-> "ret"])
    \/ hist # <<>> /\ \E ok \in BOOLEAN : Exit(ok) /\ Ev([e |-> "exit", ok |-> ok])
Bound == Len(hist) <= MaxLen
Spec == Init /\ [][Next]_vars

\* ---- the properties, over the history -------------------------------------
Is(j, e) == hist[j].e = e
RunIdx == {j \in DOMAIN hist : Is(j, "run")}
\* every event that shows a place of the structure being performed
Places == {j \in DOMAIN hist : hist[j].e \in {"run", "skip", "gate", "open", "iter", "enditer"}}
Inside(i, a) == a <= i /\ i < P[a].nxt

\* P01 each action receives the tree the previous one returned
TreeChain == \A j \in RunIdx :
    LET before == {k \in RunIdx : k < j} IN
    hist[j].in = IF before = {} THEN 0 ELSE hist[CHOOSE k \in before : \A l \in before : l <= k].out
\* P01 a traversal is left out exactly where there is no tree
SkipRule == \A j \in DOMAIN hist : Is(j, "skip") \/ Is(j, "run") =>
    LET before == {k \in RunIdx : k < j}
        had == IF before = {} THEN 0 ELSE hist[CHOOSE k \in before : \A l \in before : l <= k].out
    IN  Is(j, "skip") <=> (P[hist[j].i].t /\ had = NoTree)
\* P01 within one iteration of a phase its actions come in order, none twice and none left out
NextPlace(j) == LET later == {k \in Places : k > j} IN
                IF later = {} THEN 0 ELSE CHOOSE k \in later : \A l \in later : k <= l
InOrder == \A j \in Places : LET k == NextPlace(j) IN k # 0 =>
    LET a == hist[j] b == hist[k] IN
    CASE a.e \in {"run", "skip"} -> IF P[a.i].nxt < P[P[a.i].par].nxt
                        THEN b.i = P[a.i].nxt /\ b.e \in {"run", "skip", "gate", "open"}
                        ELSE b.e = "enditer" /\ b.i = P[a.i].par
      [] a.e = "gate" /\ a.v -> b.e = "iter" /\ b.i = a.i
      [] a.e = "gate" /\ ~a.v -> ~ Inside(b.i, a.i) \/ (b.i = a.i /\ b.e = "gate")
      [] a.e = "open" -> b.e = "iter" /\ b.i = a.i
      [] a.e = "iter" -> b.i = a.i + 1
      [] a.e = "enditer" -> \/ b.e = "iter" /\ b.i = a.i /\ P[a.i].k = "cycle"
                            \/ ~ Inside(b.i, a.i)
                            \/ b.e = "gate" /\ b.i = a.i \* reached again in an outer iteration
                            \/ b.e = "open" /\ b.i = a.i
\* P01 a closed gate leaves nothing inside performed until the phase is reached again
ClosedGate == \A j \in DOMAIN hist : Is(j, "gate") /\ ~hist[j].v =>
    \A k \in Places : k > j /\ P[hist[k].i].par = hist[j].i =>
        \E m \in (j + 1)..(k - 1) : Is(m, "gate") /\ hist[m].i = hist[j].i
\* P01 a finished run without signals performed, between open and close of each phase iteration, all actions
Complete == \A j \in DOMAIN hist : Is(j, "ret") =>
    \A i \in DOMAIN P : P[i].par # 0 /\ (\A a \in DOMAIN P : Inside(i, a) => ~P[a].g) =>
        \E k \in Places : k < j /\ hist[k].i = i

\* P02 an iteration is followed by another one iff it was noisy and the maximum is not reached
BodyStart(j) == \* index of the iter event of the iteration ended at j
    CHOOSE k \in DOMAIN hist : k < j /\ Is(k, "iter") /\ hist[k].i = hist[j].i
        /\ \A l \in (k + 1)..(j - 1) : ~(Is(l, "iter") /\ hist[l].i = hist[j].i)
IterNo(j) == \* number of the iteration ended at j
    LET opens == {k \in DOMAIN hist : k < j /\ hist[k].e \in {"open", "gate"} /\ hist[k].i = hist[j].i}
        o == CHOOSE k \in opens : \A l \in opens : l <= k
    IN  Cardinality({k \in (o + 1)..(j - 1) : Is(k, "iter") /\ hist[k].i = hist[j].i})
CycleRule == \A j \in DOMAIN hist : Is(j, "enditer") =>
    LET noisy == \E k \in (BodyStart(j))..j : Is(k, "run") /\ hist[k].nt
        again == j < Len(hist) /\ Is(j + 1, "iter") /\ hist[j + 1].i = hist[j].i
        mustgo == P[hist[j].i].k = "cycle" /\ noisy /\ IterNo(j) < max
    IN  (j < Len(hist) => (again <=> mustgo))

\* P03
ActionError == \A j \in RunIdx : hist[j].ae => \A k \in DOMAIN hist : k > j => hist[k] = [e |-> "exit", ok |-> FALSE]
PhaseError == \A j \in RunIdx : hist[j].pe =>
    /\ \A k \in DOMAIN hist : k > j =>
        \/ hist[k].e \in {"run", "skip", "gate", "open", "iter", "enditer"} /\ Inside(hist[k].i, P[hist[j].i].par)
        \/ hist[k].e = "bp" \/ hist[k].e = "exit"
    /\ \A k \in DOMAIN hist : Is(k, "exit") /\ hist[k].ok => \E m \in DOMAIN hist : Is(m, "bp")
    \* the rest of the phase is performed unless something else stops it
    /\ (\E k \in DOMAIN hist : k > j /\ Is(k, "exit") /\ ~hist[k].ok) =>
        \/ \E m \in RunIdx : m >= j /\ hist[m].ae
        \/ \E m \in DOMAIN hist : m > j /\ Is(m, "enditer") /\ Inside(P[hist[j].i].par, hist[m].i)
        \/ \E m \in RunIdx : m > j /\ hist[m].pe
NoFailWithoutSignal == \A k \in DOMAIN hist : Is(k, "exit") /\ ~hist[k].ok =>
    \E j \in RunIdx : hist[j].ae \/ hist[j].pe
NothingAfterExit == \A k \in DOMAIN hist : Is(k, "exit") => k = Len(hist)

\* P04
BreakRule == \A k \in DOMAIN hist : Is(k, "bp") =>
    /\ bp # NoBp
    /\ \A l \in DOMAIN hist : l > k => hist[l] = [e |-> "exit", ok |-> TRUE]
    /\ \A l \in RunIdx : Designates(P, bp, hist[l].i) => \A m \in RunIdx : m <= l
    /\ LET before == {m \in RunIdx : m < k} IN
       hist[k].in = IF before = {} THEN 0 ELSE hist[CHOOSE m \in before : \A l \in before : l <= m].out
BreakCompletes == (\E k \in DOMAIN hist : Is(k, "ret")) =>
    \A l \in RunIdx : ~ Designates(P, bp, hist[l].i)
Numbering == \A i \in DOMAIN P :
    /\ P[i].nxt > i
    /\ (i = 1) = (P[i].par = 0)
    /\ i # 1 => P[i].par < i /\ P[i].dep = P[P[i].par].dep + 1 /\ P[i].nxt <= P[P[i].par].nxt
=============================================================================
