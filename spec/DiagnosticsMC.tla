--------------------------- MODULE DiagnosticsMC ---------------------------
(* The counters for every history of messages and aborts, and palm's way of *)
(* breaking long messages into lines, which must keep every word.           *)
EXTENDS Diagnostics, FiniteSets
CONSTANTS MaxOps, MaxChars, Width
\* ---- histories
VARIABLES hist, ended
\* ---- the line breaker of palm/src/ctinfo.c, on characters x (any), _ (space), / (newline)
VARIABLES buf, orig, index, column, lastspace, phase
bvars == <<buf, orig, index, column, lastspace, phase>>
mvars == <<errors, warnings, mode, hist, ended, buf, orig, index, column, lastspace, phase>>
Chars == {"x", "@", "_", "/"}
Texts == UNION {[1..n -> Chars] : n \in 0..MaxChars}
MInit == /\ Init /\ hist = <<>> /\ ended = FALSE
         /\ \/ phase = "history" /\ orig = <<>>
            \/ phase = "scan" /\ orig \in Texts
         /\ buf = orig /\ index = 0 /\ column = 0 /\ lastspace = 0
Types == {"error", "warn", "note", "state"}
Count(ty) == Cardinality({i \in DOMAIN hist : hist[i] = ty})
HistNext == /\ phase = "history" /\ ~ended /\ Len(hist) < MaxOps
            /\ \/ \E ty \in Types : Message(ty, <<>>, NoPlace, Header(ty), -1, 0) /\ hist' = Append(hist, ty) /\ UNCHANGED ended
               \/ (AbortOnError \/ Abort \/ OutOfMemory \/ Continue) /\ UNCHANGED <<hist, ended>>
               \/ \E c \in {0, 1} : End(c, <<>>, FALSE) /\ ended' = TRUE /\ hist' = Append(hist, Str(c))
            /\ UNCHANGED bvars
C(i) == buf[i + 1]
Scan == /\ phase = "scan" /\ UNCHANGED <<errors, warnings, mode, hist, ended, orig>>
        /\ IF index >= Len(buf) THEN phase' = "done" /\ UNCHANGED <<buf, index, column, lastspace>>
           ELSE LET ls == IF C(index) = "_" THEN index ELSE lastspace IN
                IF C(index) = "/" THEN
                    lastspace' = ls /\ column' = 1 /\ index' = index + 1 /\ UNCHANGED <<buf, phase>>
                ELSE IF column = Width THEN
                    IF C(ls) = "_" THEN
                        /\ buf' = [buf EXCEPT ![ls + 1] = "/"] /\ column' = index - ls + 1
                        /\ index' = index + 1 /\ lastspace' = ls /\ UNCHANGED phase
                    ELSE phase' = "done" /\ UNCHANGED <<buf, index, column, lastspace>>
                ELSE lastspace' = ls /\ column' = column + 1 /\ index' = index + 1 /\ UNCHANGED <<buf, phase>>
MNext == HistNext \/ Scan
Spec == MInit /\ [][MNext]_mvars
Counted == phase = "history" =>
    /\ warnings = Count("warn")
    /\ errors >= Count("error") /\ (Running => errors = Count("error"))
Blank == {"_", "/"}
\* only blanks change, and only into line breaks
WordsKept == phase # "history" =>
    \A i \in DOMAIN orig : buf[i] = orig[i] \/ (orig[i] = "_" /\ buf[i] = "/")
Exit == ended => (hist[Len(hist)] = "1") = ~Running
=============================================================================
