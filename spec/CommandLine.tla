---------------------------- MODULE CommandLine ----------------------------
(* What an invocation of cocogen is to do, from its arguments and the files *)
(* around it (P21).  Arguments are read from the left: options anywhere,    *)
(* after -- only operands; the first thing that ends the reading decides.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Flags == {"verbose", "help", "version", "profiling", "breakpoints", "consistency-checks", "serialise",
          "inspectpoints", "show-ast", "show-structure", "debug"}
Valued == {"dot", "backend", "gen-dir", "breakpoint", "ag-scheduler-max-iter"}
Known == Flags \cup Valued

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
All(s, C) == \A i \in 1..Len(s) : Ch(s, i) \in C
RECURSIVE Bare(_)
Bare(p) == IF Len(p) > 1 /\ Ch(p, Len(p)) = "/" THEN Bare(SubSeq(p, 1, Len(p) - 1)) ELSE p
\* position of = in a long option, or one past its end
Cut(s) == IF \E i \in 1..Len(s) : Ch(s, i) = "="
          THEN CHOOSE i \in 1..Len(s) : Ch(s, i) = "=" /\ \A j \in 1..(i - 1) : Ch(s, j) # "="
          ELSE Len(s) + 1

\* the actions of cocogen itself at which a breakpoint can stop it before it has generated all
StopsAt == {"startphase.scanandparse", "startPhase.scanAndParse", "startphase.semantic", "STARTPHASE.Semantic.buildSymbolTable"}

Default == [dir |-> "ccngen", verbose |-> FALSE, tree |-> FALSE, debug |-> FALSE, stop |-> FALSE, unclear |-> FALSE]
Begin(args) == [args |-> args, i |-> 1, rest |-> FALSE, ops |-> <<>>, conf |-> Default, out |-> "reading"]

\* a number of iterations that is one, that is none, or that may be too few
Iterations(s) == IF s = "" \/ Ch(s, 1) \notin Digits \cup {"-", "+", " "} THEN "none"
                 ELSE IF Ch(s, 1) \in Digits THEN IF ~All(s, Digits) THEN "none"
                                                  ELSE IF Len(s) \in 2..6 /\ Ch(s, 1) # "0" THEN "fine" ELSE "unclear"
                 ELSE IF Len(s) = 1 \/ (Ch(s, 1) # " " /\ Ch(s, 2) \notin Digits) THEN "none"
                 ELSE "unclear"

\* option o with value v is read, k arguments are used up
Option(st, o, v, k) ==
    LET go == [st EXCEPT !.i = @ + k]
    IN  CASE o = "help" -> [st EXCEPT !.out = "help"]
          [] o = "version" -> [st EXCEPT !.out = "version"]
          [] o = "show-structure" -> [st EXCEPT !.out = "structure"]
          [] o = "verbose" -> [go EXCEPT !.conf.verbose = TRUE]
          [] o = "show-ast" -> [go EXCEPT !.conf.tree = TRUE]
          [] o = "debug" -> [go EXCEPT !.conf.debug = TRUE]
          [] o = "gen-dir" -> [go EXCEPT !.conf.dir = v]
          [] o = "breakpoint" -> [go EXCEPT !.conf.stop = v \in StopsAt]
          [] o = "backend" -> IF v \in {"dynamic", "Dynamic", "DYNAMIC"} THEN go
                              ELSE IF v = "static" THEN [go EXCEPT !.conf.unclear = TRUE]
                              ELSE [st EXCEPT !.out = "refused"]
          [] o = "ag-scheduler-max-iter" ->
                 LET n == Iterations(v) IN IF n = "none" THEN [st EXCEPT !.out = "refused"]
                                           ELSE [go EXCEPT !.conf.unclear = @ \/ n = "unclear"]
          [] OTHER -> go
Usage(st) == [st EXCEPT !.out = "usage"]

\* a long option a; names may be shortened, which is not decided here
Long(st, a, next) ==
    LET n == SubSeq(a, 3, Cut(a) - 1)
        has == Cut(a) <= Len(a)
        v == From(a, Cut(a) + 1)
    IN  IF n \in Flags THEN IF has THEN Usage(st) ELSE Option(st, n, "", 1)
        ELSE IF n \in Valued THEN IF has THEN Option(st, n, v, 1)
                                  ELSE IF next = <<>> THEN Usage(st) ELSE Option(st, n, next[1], 2)
        ELSE IF \E o \in Known : Prefix(n, o) THEN [st EXCEPT !.out = "open"]
        ELSE Usage(st)

\* short options, several in one argument; at is the position of the next
RECURSIVE Short(_, _, _, _)
Short(st, a, at, next) ==
    IF at > Len(a) THEN [st EXCEPT !.i = @ + 1]
    ELSE CASE Ch(a, at) = "v" -> Short([st EXCEPT !.conf.verbose = TRUE], a, at + 1, next)
           [] Ch(a, at) = "b" -> IF at < Len(a) THEN Option(st, "breakpoint", From(a, at + 1), 1)
                                 ELSE IF next = <<>> THEN Usage(st) ELSE Option(st, "breakpoint", next[1], 2)
           [] OTHER -> Usage(st)

Ended(st) == IF st.conf.dir = "" THEN [st EXCEPT !.out = "refused"]
             ELSE IF Len(st.ops) # 1 THEN Usage(st)
             ELSE [st EXCEPT !.out = "ready"]
Operand(st, a) == [st EXCEPT !.ops = Append(@, a), !.i = @ + 1]
Step(st) ==
    IF st.i > Len(st.args) THEN Ended(st)
    ELSE LET a == st.args[st.i]
             next == IF st.i < Len(st.args) THEN <<st.args[st.i + 1]>> ELSE <<>>
         IN  IF st.rest \/ Len(a) < 2 \/ Ch(a, 1) # "-" THEN Operand(st, a)
             ELSE IF a = "--" THEN [st EXCEPT !.rest = TRUE, !.i = @ + 1]
             ELSE IF Prefix("--", a) THEN Long(st, a, next)
             ELSE Short(st, a, 2, next)
RECURSIVE Read(_)
Read(st) == IF st.out = "reading" THEN Read(Step(st)) ELSE st

-----------------------------------------------------------------------------
(* The files: [path |-> "spec", "bad", "empty" (an empty directory), "file", *)
(* "none" (could be made)]; another path can be made if it is a plain name.   *)
CanHold(world, d) == IF Bare(d) \in DOMAIN world THEN world[Bare(d)] \in {"empty", "none"}
                     ELSE \A i \in 1..Len(Bare(d)) : Ch(Bare(d), i) # "/"
Loads(world, f) == f \in DOMAIN world /\ world[f] = "spec"

\* what an invocation comes to
Comes(st, world) == IF st.out # "ready" THEN st.out
                    ELSE IF st.conf.unclear THEN "open"
                    \* stopped before or after its mistakes are found
                    ELSE IF st.conf.stop /\ st.ops[1] \in DOMAIN world /\ world[st.ops[1]] = "bad" /\ CanHold(world, st.conf.dir) THEN "open"
                    ELSE IF ~CanHold(world, st.conf.dir) \/ ~Loads(world, st.ops[1]) THEN "failed"
                    ELSE IF st.conf.stop THEN "stopped"
                    ELSE "generated"
\* o: [end, usage, version, structure, told, verbose, tree: BOOLEAN, touched, code: sets of paths]
Quiet(o) == o.touched = {} /\ o.code = {}
Fits(st, world, o) ==
    /\ o.end # "abnormal"
    /\ CASE Comes(st, world) = "open" -> TRUE
         [] Comes(st, world) = "usage" -> o.end = "failed" /\ o.usage /\ Quiet(o)
         [] Comes(st, world) = "refused" -> o.end = "failed" /\ o.told /\ Quiet(o)
         [] Comes(st, world) = "help" -> o.end = "done" /\ o.usage /\ Quiet(o)
         [] Comes(st, world) = "version" -> o.end = "done" /\ o.version /\ ~o.usage /\ Quiet(o)
         [] Comes(st, world) = "structure" -> o.end = "done" /\ o.structure /\ ~o.usage /\ Quiet(o)
         [] Comes(st, world) = "failed" -> /\ o.end = "failed" /\ o.told /\ o.code = {}
                                           /\ o.touched \subseteq {Bare(st.conf.dir)}
         [] Comes(st, world) = "stopped" -> /\ o.end = "done" /\ o.code = {}
                                            /\ o.touched \subseteq {Bare(st.conf.dir)}
         [] Comes(st, world) = "generated" -> /\ o.end = "done" /\ o.code = {Bare(st.conf.dir)} /\ o.touched = o.code
                                              /\ ~o.usage
                                              /\ (st.conf.debug \/ o.verbose = st.conf.verbose)
                                              /\ (st.conf.debug \/ o.tree = st.conf.tree)
=============================================================================
