---------------------------- MODULE MemoryTrace ----------------------------
(* Traces: <<[ev |-> operations with the contents of all blocks after them,  *)
(* the last one how the program ended], ...>>                                *)
EXTENDS Memory, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
E == Traces[t].ev
Init == t \in DOMAIN Traces /\ l = 1 /\ mem = <<>> /\ refused = FALSE /\ ended = ""
In(e, b) == \E i \in DOMAIN e.mem : e.mem[i].b = b
Of(e, b) == e.mem[CHOOSE i \in DOMAIN e.mem : e.mem[i].b = b].c
S(e) == IF e.b = Null THEN <<>> ELSE IF In(e, e.b) THEN Of(e, e.b) ELSE <<>>
\* all blocks are apart from each other and hold what they should
Seen(e) == e.apart /\ mem' = [b \in {e.mem[i].b : i \in DOMAIN e.mem} |-> Of(e, b)]
Step(e) == CASE e.e = "malloc" -> Alloc(e.n, e.b, S(e)) /\ Seen(e)
             [] e.e = "copy" -> Copy(e.n, e.a, e.b, S(e)) /\ Seen(e)
             [] e.e = "realloc" -> Realloc(e.n, e.a, e.b, S(e)) /\ Seen(e)
             [] e.e = "free" -> Free(e.a, e.b) /\ Seen(e)
             [] e.e = "fill" -> Fill(e.a, [i \in 1..Len(mem[e.a]) |-> e.k]) /\ Seen(e)
             [] e.e = "refuse" -> Refuse
             \* palm's own programs: how they end
             [] e.e = "end" -> IF e.code = 0 THEN Finish ELSE e.code = 1 /\ e.told /\ Exhausted
             \* larger programs: same as undisturbed, up to the end
             [] e.e = "over" -> \/ e.how = "done" /\ e.same /\ (Finish \/ Spared(e.same))
                                \/ e.how = "failed" /\ e.told /\ e.same /\ Exhausted
             [] OTHER -> FALSE
Next == l <= Len(E) /\ Step(E[l]) /\ l' = l + 1 /\ UNCHANGED t
Accepted == l > Len(E) /\ ended # "" => PrintT(<<"ACCEPT", t>>)
Where == PrintT(<<"AT", l, mem, refused, ended>>)
=============================================================================
