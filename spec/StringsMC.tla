----------------------------- MODULE StringsMC -----------------------------
(* The definitions of Strings against each other and against the scanning   *)
(* algorithms of palm/src/str.c, for all strings over a small alphabet.      *)
EXTENDS Strings, TLC
CONSTANTS MaxLen
A == {97, 65, 44}       \* a A ,
Str == UNION {[1..n -> A] : n \in 0..MaxLen}
Short == UNION {[1..n -> A] : n \in 0..(MaxLen - 1)}

\* ---- laws of the definitions
Join(p, sep) == FoldLeft(LAMBDA acc, x : acc \o sep \o x, p[1], Tail(p))
LawsOf(s) ==
    /\ Copy(s) = s /\ Cat(s, <<>>) = s /\ Cat(Absent, s) = s /\ Cat(s, Absent) = s
    /\ Lower(Lower(s)) = Lower(s) /\ Upper(Lower(s)) = Upper(s) /\ Len(Lower(s)) = Len(s)
    /\ Join(Pieces(s, {44}), <<44>>) = s
    /\ \A i \in DOMAIN Pieces(s, {44}) : 44 \notin Chars(Pieces(s, {44})[i])
    /\ Len(Pieces(s, {44})) = 1 + Cardinality({i \in DOMAIN s : s[i] = 44})
    /\ Pieces(s, {}) = <<s>>
    /\ \A k \in 0..(Len(s) + 1) : /\ SubStr(s, 0, k) = NCopy(s, k)
                                   /\ Cat(SubStr(s, 0, k), SubStr(s, k, Len(s))) = s
                                   /\ k > 0 => SubStr(s, 0, -k) = SubStr(s, 0, Len(s) - Min2(k, Len(s)))
    /\ \A u \in Short :
        /\ Prefix(s, Cat(s, u)) /\ Suffix(u, Cat(s, u)) /\ Sub(s, Cat(u, Cat(s, u)))
        /\ (Prefix(u, s) => Sub(u, s)) /\ (Suffix(u, s) => Sub(u, s))
        /\ EqCi(s, u) = Eq(Lower(s), Lower(u))
        /\ EqN(s, u, 99) = Eq(s, u) /\ EqN(s, u, 0)
        /\ (Prefix(u, s) = EqN(u, s, Len(u)))
        /\ \A w \in {<<>>, <<97>>, <<65, 44>>} :
             /\ (~Sub(u, s) => Subst(s, u, w) = s)
             /\ (w = u => Subst(s, u, w) = s)
             /\ (u # <<>> /\ ~Sub(u, s) => Subst(Cat(s, Cat(u, s)), u, w) # Absent)
             /\ Len(Subst(s, u, w)) <= Len(s) + Len(s) * Len(w)

\* ---- the scanning algorithms
VARIABLES job, i, out, done
mvars == <<job, i, out, done, left>>
\* tokenise: repeated calls yield the pieces, then nothing
\* substitute: STRsubstToken's loop; contains: position by position
Jobs == [f : {"tok"}, s : Str, t : {<<44>>, <<44, 65>>, <<>>}, u : {<<>>}]
        \cup [f : {"subst"}, s : Str, t : Short \ {<<>>}, u : {<<>>, <<97>>, <<97, 97>>, <<65, 44>>}]
        \cup [f : {"eqci"}, s : Str, t : Str, u : {<<>>}]
Init == job \in Jobs /\ i = 1 /\ out = <<>> /\ done = FALSE /\ TokInit
TokStep == /\ job.f = "tok"
           /\ \E r \in {Piece(IF i = 1 THEN job.s ELSE left, Chars(job.t))} :
                /\ Tok(IF i = 1 THEN job.s ELSE Absent, job.t, r)
                /\ IF r = Absent THEN done' = TRUE /\ out' = out ELSE done' = FALSE /\ out' = Append(out, r)
           /\ i' = i + 1
SubstStep == /\ job.f = "subst" /\ UNCHANGED left
             /\ IF i > Len(job.s) THEN done' = TRUE /\ UNCHANGED <<i, out>>
                ELSE /\ done' = FALSE
                     /\ IF At(job.s, job.t, i) THEN i' = i + Len(job.t) /\ out' = out \o job.u
                        ELSE i' = i + 1 /\ out' = Append(out, job.s[i])
CiStep == /\ job.f = "eqci" /\ UNCHANGED left
          /\ IF i > Len(job.s) \/ i > Len(job.t) \/ Low(job.s[i]) # Low(job.t[i])
             THEN done' = TRUE /\ out' = Truth(i > Len(job.s) /\ i > Len(job.t)) /\ i' = i
             ELSE i' = i + 1 /\ UNCHANGED <<out, done>>
Next == ~done /\ (TokStep \/ SubstStep \/ CiStep) /\ UNCHANGED job
Spec == Init /\ [][Next]_mvars
Right == done => out = CASE job.f = "tok" -> Pieces(job.s, Chars(job.t))
                         [] job.f = "subst" -> Subst(job.s, job.t, job.u)
                         [] job.f = "eqci" -> Truth(EqCi(job.s, job.t))
Laws == (i = 1 /\ job.f = "tok" /\ job.t = <<>>) => LawsOf(job.s)
=============================================================================
