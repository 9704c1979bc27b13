------------------------------- MODULE Quoted -------------------------------
(***************************************************************************)
(* Quoted strings, addresses in angle brackets and parameters.             *)
(***************************************************************************)
EXTENDS Text

(* position of the first character of C outside quotes and <> *)
RECURSIVE Find(_, _, _, _, _)
Find(x, C, i, quoted, angle) ==
  IF i > Len(x) THEN i
  ELSE LET c == Ch(x, i) IN
       IF quoted /\ c = "\\" THEN Find(x, C, i + 2, TRUE, angle)
       ELSE IF c = "\"" THEN Find(x, C, i + 1, ~quoted, angle)
       ELSE IF quoted THEN Find(x, C, i + 1, TRUE, angle)
       ELSE IF c = "<" THEN Find(x, C, i + 1, FALSE, TRUE)
       ELSE IF c = ">" THEN Find(x, C, i + 1, FALSE, FALSE)
       ELSE IF ~angle /\ c \in C THEN i ELSE Find(x, C, i + 1, FALSE, angle)
RECURSIVE Unescape(_)
Unescape(x) == IF x = "" THEN "" ELSE IF Ch(x, 1) = "\\" /\ Len(x) > 1 THEN Ch(x, 2) \o Unescape(From(x, 3))
               ELSE Ch(x, 1) \o Unescape(From(x, 2))
NameText(d) == IF Len(d) >= 2 /\ Ch(d, 1) = "\"" /\ Ch(d, Len(d)) = "\"" THEN Unescape(SubSeq(d, 2, Len(d) - 1)) ELSE TrimOf(d, {"\""})
RECURSIVE Parts(_, _)          \* pieces between characters c outside quotes and <>
Parts(x, c) == LET j == Find(x, {c}, 1, FALSE, FALSE) IN
  IF j > Len(x) THEN <<x>> ELSE <<Upto(x, j - 1)>> \o Parts(From(x, j + 1), c)
Trimmed(q) == Filter(MapSeq(q, Trim), LAMBDA y : y # "")
RECURSIVE Escape(_), AnySeq(_)
Escape(x) == IF x = "" THEN "" ELSE (IF Ch(x, 1) \in {"\"", "\\"} THEN "\\" ELSE "") \o Ch(x, 1) \o Escape(From(x, 2))
AnySeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AnySeq(S \ {x})
RECURSIVE Concat(_)
Concat(q) == IF q = << >> THEN "" ELSE Head(q) \o Concat(Tail(q))

(* value of a parameter: the text of a quoted string, or what is written *)
ValText(v) == IF Len(v) >= 2 /\ Ch(v, 1) = "\"" /\ Ch(v, Len(v)) = "\"" THEN Unescape(SubSeq(v, 2, Len(v) - 1)) ELSE TrimOf(v, {"\""})
Quote(x) == "\"" \o Escape(x) \o "\""
PlainChars == TokenChars \cup {"[", "]", ":"}
WriteVal(v) == IF v # "" /\ All(v, PlainChars) THEN v ELSE Quote(v)
=============================================================================
