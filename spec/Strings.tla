------------------------------- MODULE Strings -------------------------------
(* What palm's string helpers return, for every argument.  A string is a     *)
(* sequence of character codes; Absent is C's NULL; truth values are <<1>>   *)
(* and <<0>>.  STRtok is the one with a state: what is left of its string.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Absent == <<-1>>
Truth(b) == IF b THEN <<1>> ELSE <<0>>
Text(s) == IF s = Absent THEN <<>> ELSE s
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
From(s, i) == SubSeq(s, i, Len(s))

Low(c) == IF c \in 65..90 THEN c + 32 ELSE c
Up(c) == IF c \in 97..122 THEN c - 32 ELSE c
OnAll(F(_), s) == [i \in DOMAIN s |-> F(s[i])]

\* does t occur in s at position i?
At(s, t, i) == i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t
Positions(s, t) == {i \in 1..(Len(s) + 1) : At(s, t, i)}
IsPrefix2(t, s) == At(s, t, 1)
IsSuffix2(t, s) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
Occurs(t, s) == Positions(s, t) # {}

Copy(s) == s
NCopy(s, n) == IF s = Absent THEN Absent ELSE Take(s, n)
Eq(a, b) == a = b
EqCi(a, b) == (a = Absent) = (b = Absent) /\ OnAll(Low, Text(a)) = OnAll(Low, Text(b))
EqN(a, b, n) == \/ a = b
                \/ n = 0
                \/ a # Absent /\ b # Absent /\ Take(a, n) = Take(b, n)
Length(s) == Len(Text(s))
Cat(a, b) == IF a = Absent THEN b ELSE IF b = Absent THEN a ELSE a \o b
RECURSIVE CatN(_)
CatN(ss) == IF ss = <<>> THEN Absent ELSE Cat(Head(ss), CatN(Tail(ss)))
Prefix(t, s) == t = Absent \/ (s # Absent /\ IsPrefix2(t, s))
Suffix(t, s) == t = Absent \/ (s # Absent /\ IsSuffix2(t, s))
Sub(t, s) == t = Absent \/ (s # Absent /\ Occurs(t, s))
Lower(s) == IF s = Absent THEN Absent ELSE OnAll(Low, s)
Upper(s) == IF s = Absent THEN Absent ELSE OnAll(Up, s)
\* from position start (counted from 0) up to len characters; a negative
\* length counts from the length of the string
SubStr(s, start, len) ==
    LET t == Text(s)
        want == IF len < 0 THEN Max2(0, Len(t) + len) ELSE len
    IN IF start >= Len(t) THEN <<>> ELSE SubSeq(t, start + 1, start + Min2(want, Len(t) - start))
\* leftmost occurrences, not overlapping
RECURSIVE Replace(_, _, _)
Replace(s, t, u) ==
    IF Positions(s, t) = {} THEN s
    ELSE LET i == CHOOSE i \in Positions(s, t) : \A j \in Positions(s, t) : i <= j
         IN SubSeq(s, 1, i - 1) \o u \o Replace(From(s, i + Len(t)), t, u)
Subst(s, t, u) == IF s = Absent THEN Absent
                  ELSE IF Text(t) = <<>> THEN s ELSE Replace(s, t, Text(u))

\* numbers in decimal
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Decimal(n) == IF n >= 0 THEN Digits(n)
              ELSE IF n = -2147483647 - 1 THEN <<45>> \o Digits(214748364) \o <<56>>
              ELSE <<45>> \o Digits(-n)
\* formats with %s, %d, %c and %%; an argument is a string or a number <<n>>
RECURSIVE Format(_, _)
Format(f, args) ==
    IF f = <<>> THEN <<>>
    ELSE IF f[1] # 37 THEN <<f[1]>> \o Format(Tail(f), args)
    ELSE CASE f[2] = 37 -> <<37>> \o Format(From(f, 3), args)
           [] f[2] = 115 -> args[1] \o Format(From(f, 3), Tail(args))
           [] f[2] = 99 -> args[1] \o Format(From(f, 3), Tail(args))
           [] f[2] = 100 -> Decimal(args[1][1]) \o Format(From(f, 3), Tail(args))

\* the pieces between separators, as one value
Chars(seps) == {Text(seps)[i] : i \in DOMAIN Text(seps)}
RECURSIVE Pieces(_, _)
Pieces(s, C) ==
    LET P == {i \in DOMAIN s : s[i] \in C}
    IN IF P = {} THEN <<s>>
       ELSE LET i == CHOOSE i \in P : \A j \in P : i <= j
            IN <<SubSeq(s, 1, i - 1)>> \o Pieces(From(s, i + 1), C)
\* one call of the tokeniser, on what is left (Absent when nothing is)
Piece(left, C) == IF left = Absent THEN Absent ELSE Pieces(left, C)[1]
Left(left, C) == IF left = Absent \/ Len(Piece(left, C)) = Len(left) THEN Absent
                 ELSE From(left, Len(Piece(left, C)) + 2)

\* all functions without a state, by name
Value(f, s, n) ==
    CASE f = "cpy" -> Copy(s[1])
      [] f = "ncpy" -> NCopy(s[1], n[1])
      [] f = "eq" -> Truth(Eq(s[1], s[2]))
      [] f = "eqci" -> Truth(EqCi(s[1], s[2]))
      [] f = "eqn" -> Truth(EqN(s[1], s[2], n[1]))
      [] f = "len" -> <<Length(s[1])>>
      [] f = "cat" -> Cat(s[1], s[2])
      [] f = "catn" -> CatN(s)
      [] f = "fmt" -> Format(s[1], Tail(s))
      [] f = "onnull" -> IF s[2] = Absent THEN s[1] ELSE s[2]
      [] f = "itoa" -> Decimal(n[1])
      [] f \in {"lower", "tolower"} -> Lower(s[1])
      [] f \in {"upper", "toupper"} -> Upper(s[1])
      [] f = "prefix" -> Truth(Prefix(s[1], s[2]))
      [] f = "suffix" -> Truth(Suffix(s[1], s[2]))
      [] f = "sub" -> Truth(Sub(s[1], s[2]))
      [] f = "substr" -> SubStr(s[1], n[1], n[2])
      [] f = "subst" -> Subst(s[1], s[2], s[3])
      [] f = "null" -> <<>>

VARIABLE left
TokInit == left = Absent
\* s is the new string, or Absent to go on with the current one
Tok(s, seps, r) ==
    LET now == IF s = Absent THEN left ELSE s
    IN r = Piece(now, Chars(seps)) /\ left' = Left(now, Chars(seps))
Call(f, s, n, r) == r = Value(f, s, n) /\ UNCHANGED left
=============================================================================
