--------------------------- MODULE CommandLineMC ---------------------------
EXTENDS CommandLine
CONSTANT MaxArgs
Tokens == {"-v", "-vb", "-bx", "-x", "--help", "--version", "--verbose", "--show-structure", "--gen-dir", "--gen-dir=out", "--gen-dir=",
           "out", "a.ccn", "b.ccn", "--", "-", "--nonsense", "--breakpoint", "startphase.semantic", "--backend", "dynamic",
           "--ag-scheduler-max-iter=12", "--ag-scheduler-max-iter=12a", "--show-ast=1"}
VARIABLE st
Init == \E n \in 0..MaxArgs : \E a \in [1..n -> Tokens] : st = Begin(a)
Next == st.out = "reading" /\ st' = Step(st)
Spec == Init /\ [][Next]_st
Done == st.out # "reading"
A == st.args
In(x) == \E i \in DOMAIN A : A[i] = x
\* every argument is read once: an operand, an option, or the value of the option before it
OneReading == st.out = "ready" => st.i = Len(A) + 1 /\ Len(st.ops) = 1 /\ In(st.ops[1])
\* something is generated only if nothing asks for less
NothingIgnored == Done /\ st.out = "ready" =>
    \A i \in DOMAIN A : A[i] \in {"-x", "--help", "--version", "--show-structure", "--nonsense", "--ag-scheduler-max-iter=12a", "--show-ast=1"} =>
        \* then it is the value of an option or the operand
        \/ A[i] = st.ops[1]
        \/ i > 1 /\ A[i - 1] \in {"-vb", "--gen-dir", "--breakpoint", "--backend"}
\* the last directory counts
LastDir == st.out = "ready" =>
    IF \E i \in DOMAIN A : ~\E j \in 1..(i - 1) : A[j] = "--" THEN
      \/ st.conf.dir = "ccngen" \/ (st.conf.dir = "out" /\ (In("--gen-dir=out") \/ In("out"))) \/ In("--gen-dir") 
    ELSE st.conf.dir = "ccngen"
\* where the operand stands does not matter, as long as it is not taken as a value
Without(i) == [j \in 1..(Len(A) - 1) |-> IF j < i THEN A[j] ELSE A[j + 1]]
OrderFree == st.out = "ready" /\ ~In("--") =>
    \A i \in DOMAIN A : A[i] = st.ops[1] /\ A[i] \in {"a.ccn", "b.ccn"} /\ Read(Begin(Without(i))).out = "usage" /\ Read(Begin(Without(i))).ops = <<>>
        => Read(Begin(<<A[i]>> \o Without(i))) .conf = st.conf
\* saying a thing twice changes nothing
Twice == st.out = "ready" /\ ~In("--") => LET r == Read(Begin(<<"-v">> \o A)) IN r.out = "ready" /\ r.ops = st.ops /\ r.conf = [st.conf EXCEPT !.verbose = TRUE]
\* "--" protects an operand
Protected == \A x \in {"--help", "-x", "--nonsense", "-v"} : st.out = "usage" /\ st.i > Len(A) /\ st.ops = <<>> /\ ~In("--") /\ st.conf.dir # ""
                => Read(Begin(A \o <<"--", x>>)).ops = <<x>>
Ends == Done => st.out \in {"usage", "refused", "help", "version", "structure", "ready", "open"}
=============================================================================
