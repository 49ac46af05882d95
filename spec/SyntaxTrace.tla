---------------------------- MODULE SyntaxTrace ----------------------------
(* Texts given to cocogen, character by character, and what became of them:  *)
(* [text |-> <<c, ...>>, valid |-> is it known to be a good specification,   *)
(*  end |-> [e |-> "done"/"failed"/.., row, col |-> where its first message  *)
(*  points, syn |-> does it say that the text is no sentence, same |-> does  *)
(*  it do the same with these tokens in another layout, line |-> the line of *)
(*  the text it shows (or <<>>)]]                                            *)
EXTENDS Syntax, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, p,     \* the next character
          row, bol, \* the line it is on, and where that begins
          mode      \* "", or the comment it is in
Text == Traces[t].text
End == Traces[t].end
At(i) == IF i <= Len(Text) THEN Text[i] ELSE ""
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE Run(_, _), Quoted(_), Spell(_, _)
Run(i, S) == IF At(i) \in S THEN Run(i + 1, S) ELSE i           \* where a run of S ends
Quoted(i) == CASE At(i) = "" -> 0                                \* where a string ends, or 0
               [] At(i) = "\"" -> i + 1
               [] At(i) = "\\" -> IF At(i + 1) \in {"", "\n"} THEN 0 ELSE Quoted(i + 2)
               [] OTHER -> Quoted(i + 1)
Spell(i, j) == IF i >= j THEN "" ELSE Text[i] \o Spell(i + 1, j)

\* the token at p: its kind and where it ends
Number(i) == LET j == Run(i, Digit) IN IF At(j) = "." /\ At(j + 1) \in Digit THEN Run(j + 1, Digit) ELSE j
Token == LET c == At(p) IN
    CASE c = "" -> [k |-> "eof", to |-> p]
      [] c \in Lower \cup Upper ->
            LET j == Run(p, Lower \cup Upper \cup Digit \cup {"_"})
                w == Spell(p, j)
            IN  [k |-> IF w \in Keywords THEN w ELSE IF w \in CWords THEN "word" ELSE "id", to |-> j]
      [] c \in Digit -> [k |-> "num", to |-> Number(p)]
      [] c = "-" /\ At(p + 1) \in Digit -> [k |-> "num", to |-> Number(p + 1)]
      [] c = "-" /\ At(p + 1) = ">" -> [k |-> "->", to |-> p + 2]
      [] c \in Punctuation -> [k |-> c, to |-> p + 1]
      [] c = "\"" -> IF Quoted(p + 1) = 0 THEN [k |-> "bad", to |-> p + 1] ELSE [k |-> "str", to |-> Quoted(p + 1)]
      [] OTHER -> [k |-> "bad", to |-> p + 1]

Line(i) == IF At(i) = "\n" THEN row' = row + 1 /\ bol' = i + 1 ELSE UNCHANGED <<row, bol>>
Opens == At(p) = "/" /\ At(p + 1) \in {"/", "*"}
Skip == /\ verdict = "" /\ mode = ""
        /\ \/ At(p) \in {" ", "\t", "\r", "\n"} /\ p' = p + 1 /\ Line(p) /\ UNCHANGED mode
           \/ Opens /\ p' = p + 2 /\ mode' = At(p + 1) /\ UNCHANGED <<row, bol>>
        /\ UNCHANGED reading
Comment == /\ verdict = "" /\ mode # ""
           /\ CASE At(p) = "" -> IF mode = "/" THEN mode' = "" /\ UNCHANGED <<p, row, bol, reading>>
                                 ELSE Say("no") /\ UNCHANGED <<p, row, bol, mode>>   \* a comment without an end
                [] At(p) = "\n" -> p' = p + 1 /\ Line(p) /\ mode' = (IF mode = "/" THEN "" ELSE mode) /\ UNCHANGED reading
                [] mode = "*" /\ At(p) = "*" /\ At(p + 1) = "/" -> p' = p + 2 /\ mode' = "" /\ UNCHANGED <<row, bol, reading>>
                [] OTHER -> p' = p + 1 /\ UNCHANGED <<row, bol, mode, reading>>
\* line ends inside a string
RECURSIVE Breaks(_, _)
Breaks(i, j) == IF i >= j THEN <<>> ELSE (IF At(i) = "\n" THEN <<i + 1>> ELSE <<>>) \o Breaks(i + 1, j)
Lex == /\ verdict = "" /\ mode = "" /\ At(p) \notin {" ", "\t", "\r", "\n"} /\ ~Opens
       /\ UNCHANGED mode
       /\ LET x == Token IN
          \/ /\ Take(x.k) /\ p' = x.to
             /\ LET b == IF x.k = "str" THEN Breaks(p, x.to) ELSE <<>>
                IN  row' = row + Len(b) /\ bol' = (IF b = <<>> THEN bol ELSE 0)
          \/ (Finish(x.k) \/ Refuse(x.k) \/ Turn(x.k)) /\ UNCHANGED <<p, row, bol>>
Init == Start /\ t \in DOMAIN Traces /\ p = 1 /\ row = 1 /\ bol = 1 /\ mode = ""
Next == UNCHANGED t /\ (Skip \/ Comment \/ Lex)

Shown == \/ End.line = <<>> \/ bol = 0
         \/ /\ Len(End.line) <= Len(Text) - bol + 1
            /\ \A i \in DOMAIN End.line : End.line[i] = At(bol + i - 1)
            /\ At(bol + Len(End.line)) \in {"", "\n"}
\* messages point at the token; where a string goes over several lines, at one of them
Pointed == IF mode = "" /\ Token.k = "str" /\ Breaks(p, Token.to) # <<>>
           THEN End.row \in row..(row + Len(Breaks(p, Token.to)))
           ELSE End.row = row /\ Shown /\ (mode # "" \/ Token.k = "eof" \/ bol = 0 \/ End.col = p - bol + 1)
Allowed == CASE verdict = "yes" -> /\ End.e \in {"done", "failed"} /\ ~End.syn /\ End.same
                                   /\ Traces[t].valid => End.e = "done"
             [] verdict = "no" -> End.e = "failed" /\ Pointed
             [] OTHER -> End.e \in {"done", "failed"} /\ End.same
Accepted == verdict # "" /\ Allowed => PrintT(<<"ACCEPT", t>>)
Where == verdict # "" => PrintT(<<"AT", verdict, row, p, bol>>)
=============================================================================
