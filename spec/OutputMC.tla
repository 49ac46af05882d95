------------------------------ MODULE OutputMC ------------------------------
(* A generator that makes directories, then writes its files piece by piece, *)
(* through a buffer of Buf bytes; every operation can fail, writes can be    *)
(* short, and it may try again Tries times.  Modes: it writes in place or to *)
(* another name first.                                                        *)
EXTENDS Output
CONSTANTS Pieces,  \* how many pieces each file has
          Tries, Old
F == {"a", "b"}
Order == <<"a", "b">>
VARIABLES pc, f, done, left, via
mine == <<pc, f, done, left, via>>
vars == <<want, disk, hurt, ended, mine>>
\* files left by an earlier generation, longer or shorter than the new ones
Init == /\ want = [p \in F |-> Pieces]
        /\ disk \in UNION {[D -> Old] : D \in SUBSET F}
        /\ hurt = FALSE /\ ended = ""
        /\ pc = "mkdir" /\ f = 1 /\ done = 0 /\ left = Tries /\ via \in {"", "~"}
At == Order[f] \o via
Keep == UNCHANGED <<f, done, left, via>>
Goto(l) == pc' = l
\* an operation fails: again, or the end
Broken == /\ Fail
          /\ \/ left > 0 /\ left' = left - 1 /\ UNCHANGED <<pc, f, done, via>>
             \/ Goto("exit") /\ Keep
Next == \/ pc = "mkdir" /\ ((Same /\ Goto("open") /\ Keep) \/ Broken)
        \/ pc = "open" /\ ((Open(At, TRUE) /\ Goto("write") /\ done' = 0 /\ UNCHANGED <<f, left, via>>) \/ Broken)
        \/ pc = "write" /\ done < Pieces
             /\ ((\E n \in 1..(Pieces - done) : Write(At, n) /\ done' = done + n /\ UNCHANGED <<pc, f, left, via>>) \/ Broken)
        \/ pc = "write" /\ done = Pieces /\ Same /\ Goto("close") /\ Keep
        \/ pc = "close" /\ ((Same /\ Goto(IF via = "" THEN "next" ELSE "rename") /\ Keep)
                            \* after a failed close nothing is known of the file
                            \/ (Fail /\ Goto("exit") /\ Keep))
        \/ pc = "rename" /\ ((Rename(At, Order[f]) /\ Goto("next") /\ Keep) \/ Broken)
        \/ pc = "next" /\ Same /\ (IF f = 2 THEN Goto("end") /\ Keep ELSE Goto("open") /\ f' = f + 1 /\ UNCHANGED <<done, left, via>>)
        \/ pc = "end" /\ Succeed /\ Goto("over") /\ Keep
        \/ pc = "exit" /\ GiveUp /\ Goto("over") /\ Keep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Honest == ended = "done" => Complete
Reason == ended = "failed" => hurt
\* never stuck before the end: in particular what it reports at the end is true
Ends == <>(ended # "")
\* a file under its own name is complete as soon as it is renamed to
Whole == via = "~" /\ pc \in {"next", "end"} => disk[Order[f]] = want[Order[f]]
\* what fails once and is not tried again is not forgotten
Spread == ended = "done" /\ hurt => left < Tries
=============================================================================
