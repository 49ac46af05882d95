------------------------------ MODULE MemoryMC ------------------------------
(* Programs of at most MaxOps operations on Blocks blocks of up to MaxLen    *)
(* bytes; any request may be refused.                                        *)
EXTENDS Memory
CONSTANTS Blocks, MaxLen, MaxOps
Vals == {0, 1}
Seqs(n) == [1..n -> Vals]
VARIABLES ops, last
vars == <<mem, refused, ended, ops, last>>
Init == mem = <<>> /\ refused = FALSE /\ ended = "" /\ ops = 0 /\ last = [op |-> "none", a |-> 0, b |-> 0, n |-> 0]
Count(o, a, b, n) == ops' = ops + 1 /\ last' = [op |-> o, a |-> a, b |-> b, n |-> n]
B0 == 0..Blocks
Op == /\ ops < MaxOps
      /\ \/ \E n \in 0..MaxLen, b \in B0 : \E s \in Seqs(n) : Alloc(n, b, s) /\ Count("alloc", 0, b, n)
         \/ \E n \in 0..MaxLen, a, b \in B0 : \E s \in Seqs(n) : Copy(n, a, b, s) /\ Count("copy", a, b, n)
         \/ \E n \in 0..MaxLen, a, b \in B0 : \E s \in Seqs(n) : Realloc(n, a, b, s) /\ Count("realloc", a, b, n)
         \/ \E a \in B0 : Free(a, Null) /\ Count("free", a, 0, 0)
         \/ \E a \in DOMAIN mem : \E s \in Seqs(Len(mem[a])) : Fill(a, s) /\ Count("fill", a, a, Len(mem[a]))
         \/ \E n \in 1..MaxLen : Refuse /\ Count("refuse", 0, 0, n)
Next == Op \/ (Exhausted /\ UNCHANGED <<ops, last>>) \/ (Finish /\ UNCHANGED <<ops, last>>)
Spec == Init /\ [][Next]_vars /\ WF_vars(Exhausted /\ UNCHANGED <<ops, last>>)
NoEmpty == Null \notin DOMAIN mem /\ \A b \in DOMAIN mem : mem[b] # <<>>
\* nothing happens between a refusal and the end, and the end is not a success
Stops == refused => ended # "done"
Ends == [](refused => <>(ended = "failed"))
\* an operation changes its own block only; what was there stays there
Own == [][\A x \in DOMAIN mem : x \notin {last'.a, last'.b} => x \in DOMAIN mem' /\ mem'[x] = mem[x]]_vars
Kept == [][last'.op = "realloc" /\ ops' # ops /\ last'.a \in DOMAIN mem /\ last'.n > 0 =>
              \A i \in 1..Min(last'.n, Len(mem[last'.a])) : mem'[last'.b][i] = mem[last'.a][i]]_vars
Copied == [][last'.op = "copy" /\ ops' # ops /\ last'.n > 0 =>
              mem'[last'.a] = mem[last'.a] /\ mem'[last'.b] = SubSeq(mem[last'.a], 1, last'.n)]_vars
=============================================================================
