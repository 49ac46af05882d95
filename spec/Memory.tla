------------------------------- MODULE Memory -------------------------------
(* palm's memory, and what happens when there is no more (P23): a program    *)
(* ends with a message as soon as it needs memory it can not have.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES mem,      \* the blocks in use: [block |-> contents]
          refused,  \* has memory been refused?
          ended     \* "" or how the program ended

Live == ended = ""
Null == 0           \* no block
Min(a, b) == IF a < b THEN a ELSE b
Put(b, s) == [x \in DOMAIN mem \cup {b} |-> IF x = b THEN s ELSE mem[x]]
Drop(b) == [x \in DOMAIN mem \ {b} |-> mem[x]]
\* after a refusal nothing goes on that needs the memory refused
Calm == Live /\ ~refused

\* b is the block obtained, s what is in it
Alloc(n, b, s) == /\ Calm /\ UNCHANGED <<refused, ended>>
                  /\ IF n = 0 THEN b = Null /\ mem' = mem
                              ELSE b # Null /\ b \notin DOMAIN mem /\ Len(s) = n /\ mem' = Put(b, s)
Copy(n, a, b, s) == /\ (a = Null => n = 0) /\ (a # Null => a \in DOMAIN mem /\ n <= Len(mem[a]))
                    /\ (n > 0 => s = SubSeq(mem[a], 1, n))
                    /\ Alloc(n, b, s)
\* block a becomes block b (which may be the same one)
Realloc(n, a, b, s) == IF a = Null THEN Alloc(n, b, s)
                       ELSE /\ Calm /\ a \in DOMAIN mem /\ UNCHANGED <<refused, ended>>
                            /\ IF n = 0 THEN b = Null /\ mem' = Drop(a)
                               ELSE /\ b # Null /\ (b = a \/ b \notin DOMAIN mem) /\ Len(s) = n
                                    /\ LET k == Min(n, Len(mem[a])) IN SubSeq(s, 1, k) = SubSeq(mem[a], 1, k)
                                    /\ mem' = [x \in (DOMAIN mem \ {a}) \cup {b} |-> IF x = b THEN s ELSE mem[x]]
Free(a, b) == /\ Calm /\ (a = Null \/ a \in DOMAIN mem) /\ b = Null
              /\ mem' = (IF a = Null THEN mem ELSE Drop(a)) /\ UNCHANGED <<refused, ended>>
Fill(a, s) == /\ Calm /\ a \in DOMAIN mem /\ Len(s) = Len(mem[a]) /\ mem' = Put(a, s) /\ UNCHANGED <<refused, ended>>
\* the memory asked for can not be had
Refuse == Live /\ refused' = TRUE /\ UNCHANGED <<mem, ended>>
\* asking palm: there is a message, and the program has failed
Exhausted == Live /\ refused /\ ended' = "failed" /\ UNCHANGED <<mem, refused>>
Finish == Calm /\ ended' = "done" /\ UNCHANGED <<mem, refused>>
\* memory a program can do without (same: it did as it would have done with it)
Spared(same) == Live /\ refused /\ same /\ ended' = "done" /\ UNCHANGED <<mem, refused>>
=============================================================================
