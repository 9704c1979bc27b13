-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Lexical operators on strings shared by the specifications of text       *)
(* formats.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == << >>
Range(q) == {q[i] : i \in DOMAIN q}
Ch(x, i) == SubSeq(x, i, i)
From(x, i) == IF i > Len(x) THEN "" ELSE SubSeq(x, i, Len(x))      \* x from position i on
Upto(x, i) == IF i < 1 THEN "" ELSE SubSeq(x, 1, i)
RECURSIVE Skip(_, _, _), To(_, _, _), Back(_, _, _)
Skip(x, C, i) == IF i > Len(x) \/ Ch(x, i) \notin C THEN i ELSE Skip(x, C, i + 1)  \* first not in C
To(x, C, i) == IF i > Len(x) \/ Ch(x, i) \in C THEN i ELSE To(x, C, i + 1)         \* first in C
Back(x, C, i) == IF i < 1 \/ Ch(x, i) \notin C THEN i ELSE Back(x, C, i - 1)       \* last not in C
Has(x, C) == \E i \in 1..Len(x) : Ch(x, i) \in C
All(x, C) == \A i \in 1..Len(x) : Ch(x, i) \in C
Blank == {" ", "\t", "\r", "\n"}
TrimOf(x, C) == LET i == Skip(x, C, 1) j == Back(x, C, Len(x)) IN IF i > j THEN "" ELSE SubSeq(x, i, j)
Trim(x) == TrimOf(x, Blank)
(* Pieces separated by characters of C, no empty ones. *)
RECURSIVE WordsOf(_, _)
WordsOf(x, C) == LET i == Skip(x, C, 1)
                     j == To(x, C, i) IN
                 IF i > Len(x) THEN << >> ELSE <<SubSeq(x, i, j - 1)>> \o WordsOf(From(x, j), C)
Words(x) == WordsOf(x, Blank)
(* x split at each character c, empty pieces included *)
RECURSIVE Split(_, _)
Split(x, c) == LET j == To(x, {c}, 1) IN
  IF j > Len(x) THEN <<x>> ELSE <<Upto(x, j - 1)>> \o Split(From(x, j + 1), c)
(* The same outside double-quoted strings (\\ escapes the next character there). *)
RECURSIVE ToQ(_, _, _, _), SplitQ(_, _)
ToQ(x, C, i, quoted) ==
  IF i > Len(x) THEN Len(x) + 1
  ELSE LET c == Ch(x, i) IN
       IF quoted /\ c = "\\" THEN ToQ(x, C, i + 2, TRUE)
       ELSE IF c = "\"" THEN ToQ(x, C, i + 1, ~quoted)
       ELSE IF ~quoted /\ c \in C THEN i ELSE ToQ(x, C, i + 1, quoted)
SplitQ(x, c) == LET j == ToQ(x, {c}, 1, FALSE) IN
  IF j > Len(x) THEN <<x>> ELSE <<Upto(x, j - 1)>> \o SplitQ(From(x, j + 1), c)
RECURSIVE Join(_, _)
Join(q, c) == IF q = << >> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o c \o Join(Tail(q), c)
RECURSIVE Cat(_)
Cat(q) == IF q = << >> THEN << >> ELSE Head(q) \o Cat(Tail(q))
Filter(q, P(_)) == SelectSeq(q, P)
MapSeq(q, F(_)) == [i \in DOMAIN q |-> F(q[i])]

\* ------------------------------------------------------------------ characters
Chars(x) == {Ch(x, i) : i \in 1..Len(x)}
Digits == Chars("0123456789")
UpperS == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerS == "abcdefghijklmnopqrstuvwxyz"
Upper == Chars(UpperS)
Lower == Chars(LowerS)
Alpha == Upper \cup Lower
AlNum == Alpha \cup Digits
Hex == Digits \cup Chars("abcdefABCDEF")
LowOf == [c \in Upper |-> LET i == CHOOSE i \in 1..26 : Ch(UpperS, i) = c IN Ch(LowerS, i)]
RECURSIVE Low(_)
Low(x) == IF x = "" THEN "" ELSE LET c == Ch(x, 1) IN (IF c \in Upper THEN LowOf[c] ELSE c) \o Low(From(x, 2))
EqNoCase(x, y) == Len(x) = Len(y) /\ Low(x) = Low(y)
TokenChars == AlNum \cup Chars("-.!%*_+`'~")          \* RFC 3261 token
IsToken(x) == x # "" /\ All(x, TokenChars)

\* ------------------------------------------------------------------ numbers (digit strings)
DigitVal == [c \in Digits |-> CHOOSE i \in 0..9 : ToString(i) = c]
IsNum(x) == x # "" /\ All(x, Digits)
Canon(x) == LET i == Skip(x, {"0"}, 1) IN IF i > Len(x) THEN "0" ELSE From(x, i)
RECURSIVE Below(_, _, _)
Below(x, y, i) == i > Len(x) \/ DigitVal[Ch(x, i)] < DigitVal[Ch(y, i)]
                  \/ (Ch(x, i) = Ch(y, i) /\ Below(x, y, i + 1))
AtMost(x, y) == LET n == Canon(x) IN Len(n) < Len(y) \/ (Len(n) = Len(y) /\ Below(n, y, 1))
U8 == "255"   U16 == "65535"   U32 == "4294967295"   U64 == "18446744073709551615"
Num(x, max) == IsNum(x) /\ AtMost(x, max)
RECURSIVE ValTo(_, _)
ValTo(x, n) == IF x = "" THEN n ELSE ValTo(From(x, 2), 10 * n + DigitVal[Ch(x, 1)])
Val(x) == ValTo(Canon(x), 0)                            \* only for small numbers
=============================================================================
