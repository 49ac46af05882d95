---------------------------- MODULE OutputTrace ----------------------------
(* Runs of cocogen under failing system calls, as recorded by strace:        *)
(* [want, old |-> [path |-> length] as <<[p, n], ...>>, ev |-> operations,   *)
(*  end |-> [e, told, same]]                                                  *)
EXTENDS Output, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
E == Traces[t].ev
End == Traces[t].end
Fn(s) == [p \in {s[i].p : i \in DOMAIN s} |-> (CHOOSE i \in DOMAIN s : s[i].p = p)]
Table(s) == LET x == Fn(s) IN [p \in DOMAIN x |-> s[x[p]].n]
Init == /\ t \in DOMAIN Traces /\ l = 1
        /\ want = Table(Traces[t].want) /\ disk = Table(Traces[t].old) /\ hurt = FALSE /\ ended = ""
Step(e) == IF ~e.ok THEN Fail
           ELSE CASE e.k = "open" -> Open(e.p, e.cut)
                  [] e.k = "write" -> Write(e.p, e.n)
                  [] e.k = "rename" -> Rename(e.p, e.q)
                  [] e.k = "remove" -> Remove(e.p)
                  [] OTHER -> Same
Finish == \/ End.e = "done" /\ End.same /\ Succeed
          \/ End.e = "failed" /\ End.told /\ GiveUp
Next == /\ Live /\ UNCHANGED t
        /\ \/ l <= Len(E) /\ Step(E[l]) /\ l' = l + 1
           \/ l > Len(E) /\ Finish /\ UNCHANGED l
Accepted == ended # "" => PrintT(<<"ACCEPT", t>>)
Where == Live => PrintT(<<"AT", l, hurt>>)
=============================================================================
