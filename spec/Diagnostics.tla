---------------------------- MODULE Diagnostics ----------------------------
(* Reporting messages: the pending errors and warnings, what is printed, and *)
(* how the process ends.  Printed text is a sequence of words; where lines   *)
(* are broken is free.                                                       *)
EXTENDS Integers, Sequences, TLC

VARIABLES errors, warnings, mode    \* mode: "running", "failing" (must end now)
dvars == <<errors, warnings, mode>>

Header(type) == CASE type = "error" -> <<"error:">>
                  [] type = "warn" -> <<"warning:">>
                  [] type = "note" -> <<"note:">>
                  [] type = "state" -> <<>>
Str(n) == ToString(n)
\* o: [fl, fc, ll, lc, file, line]; 0 and "" stand for unknown; line: words of the source line
Place(o) ==
    LET f == IF o.file = "" THEN "" ELSE o.file \o ":"
        fl == Str(o.fl) fc == Str(o.fc) ll == Str(o.ll) lc == Str(o.lc)
    IN IF o.fl <= 0 THEN (IF o.file = "" THEN <<>> ELSE <<"-->", o.file>>)
       ELSE IF o.fc <= 0 THEN <<"-->", f \o fl>>
       ELSE IF o.lc <= 0 \/ (o.ll \in {0, o.fl} /\ o.fc = o.lc) THEN <<"-->", f \o fl \o ":" \o fc>>
       ELSE IF o.ll \in {0, o.fl} THEN <<"-->", f \o fl \o "." \o fc \o "-" \o lc>>
       ELSE <<"-->", f \o fl \o "." \o fc \o "-" \o ll \o "." \o lc>>
Shown(o) == o.line # <<>> /\ o.fl > 0 /\ o.fc > 0
\* the marker below a shown source line; only on one line is its width fixed
Marked(o, under, width) ==
    IF Shown(o) THEN /\ under = o.fc - 1
                     /\ (o.ll \in {0, o.fl} => width = (IF o.lc > o.fc THEN o.lc - o.fc ELSE 0))
    ELSE under = -1
Located(o) == Place(o) \o (IF Shown(o) THEN <<"|>">> \o o.line ELSE <<>>)
NoPlace == [fl |-> 0, fc |-> 0, ll |-> 0, lc |-> 0, file |-> "", line |-> <<>>]

Init == errors = 0 /\ warnings = 0 /\ mode = "running"
Running == mode = "running"
Message(type, words, o, out, under, width) ==
    /\ Running
    /\ out = Header(type) \o words \o Located(o)
    /\ Marked(o, under, width)
    /\ errors' = errors + (IF type = "error" THEN 1 ELSE 0)
    /\ warnings' = warnings + (IF type = "warn" THEN 1 ELSE 0)
    /\ UNCHANGED mode
Counts(e, w) == Running /\ e = errors /\ w = warnings /\ UNCHANGED dvars
AbortOnError == Running /\ mode' = (IF errors > 0 THEN "failing" ELSE mode) /\ UNCHANGED <<errors, warnings>>
Abort == Running /\ mode' = "failing" /\ UNCHANGED <<errors, warnings>>
OutOfMemory == Running /\ mode' = "failing" /\ errors' = errors + 1 /\ UNCHANGED warnings
Crash == Running /\ mode' = "failing" /\ UNCHANGED <<errors, warnings>>   \* with handlers installed
\* control came back to the program
Continue == Running /\ UNCHANGED dvars
Summary == <<"***", "Compilation", "failed", "***", "***", Str(errors), "Error(s),", Str(warnings), "Warning(s)">>
Tail2(out, n) == SubSeq(out, Len(out) - n + 1, Len(out))
\* the process has ended with an exit code, after printing out
End(code, out, summary) ==
    /\ code = (IF Running THEN 0 ELSE 1)
    /\ (Running => out = <<>>)
    /\ (summary => Len(out) >= Len(Summary) /\ Tail2(out, Len(Summary)) = Summary)
    /\ UNCHANGED dvars
=============================================================================
