----------------------------- MODULE M_SdpText -----------------------------
(* Texts grow line by line from a pool, then are parsed; descriptions grow *)
(* by builder calls and setters.  What is written reads back as the same   *)
(* description, nothing is lost or invented, and a prefix decides nothing. *)
EXTENDS SdpText, Json
CONSTANTS Pool, Starts, Acts, MaxLines, Depth
VARIABLES s, text, hist
vars == <<s, text, hist>>
Lim == [bytes |-> 131072, lines |-> 2048, len |-> 4096, attrs |-> 500]
Op(q) == [op |-> "parse", lines |-> q, eol |-> "\r\n", end |-> "\r\n", lim |-> Lim]

Init == /\ text \in Starts
        /\ s = (CHOOSE p \in Post(InitState(<< >>), Op(text)) : TRUE).s /\ hist = <<Op(text)>>
Step(a) == \E p \in Post(s, a) : s' = p.s
More == /\ Len(text) < MaxLines /\ Len(hist) = 1
        /\ \E l \in Pool : text' = Append(text, l) /\ Step(Op(Append(text, l))) /\ hist' = <<Op(Append(text, l))>>
Do == /\ Len(hist) < Depth
      /\ \E a \in Acts : Step(a) /\ hist' = Append(hist, a) /\ UNCHANGED text
Next == More \/ Do
Spec == Init /\ [][Next]_vars

TypeOK == s.d # << >> => WellFormed(s.d)
\* a parsed text: each line written is one of the text's, and none but repeated single lines is lost
CanonOf(l) == LET p == Line(l) IN
  IF p.k \in {"v", "s", "i", "u", "e", "p", "k"} THEN SubSeq(l, 1, 2) \o (IF p.k = "v" THEN p.v ELSE p.x)
  ELSE IF p.k = "a" THEN ALines(<<p.a>>)[1]
  ELSE IF p.k = "b" THEN BLines(<<p.b>>)[1]
  ELSE IF p.k = "c" THEN CLine(<<p.c>>)[1]
  ELSE IF p.k = "o" THEN "o=" \o Join(p.o, " ")
  ELSE IF p.k = "t" THEN "t=" \o p.f
  ELSE IF p.k = "r" THEN "r=" \o p.r
  ELSE IF p.k = "m" THEN MLines(p.m)[1]
  ELSE l
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
Kept == (Len(hist) = 1 /\ s.d # << >>) =>
  LET out == Write(s.d)
      in == [i \in DOMAIN DropBlank(text) |-> CanonOf(text[i])] IN
  /\ \A i \in DOMAIN out : Ch(out[i], 1) = "z" \/ \E j \in DOMAIN in : in[j] = out[i]
  /\ \A j \in DOMAIN in : Ch(in[j], 1) \in {"a", "b", "t", "r", "m"} => Count(out, in[j]) = Count(in, in[j])
  /\ \A k \in {"o", "s", "m", "a", "t"} : (\E i \in DOMAIN in : Ch(in[i], 1) = k) => \E i \in DOMAIN out : Ch(out[i], 1) = k
\* order of media and of each media line's attributes is kept
MediaOrder == (Len(hist) = 1 /\ s.d # << >>) =>
  [i \in DOMAIN s.d.m |-> MLines(s.d.m[i])[1]] =
  SelectSeq([i \in DOMAIN DropBlank(text) |-> CanonOf(text[i])], LAMBDA x : Ch(x, 1) = "m")
\* a text that lacks a required line is never accepted; nor is one with an unusable line
Required == \A k \in {"v", "o", "s", "t"} :
  (Len(hist) = 1 /\ ~(\E i \in DOMAIN text : Line(text[i]).k = k)) => s.d = << >>
Unusable == (Len(hist) = 1 /\ \E i \in DOMAIN DropBlank(text) : Line(text[i]).k = "bad") => s.d = << >>
View == <<s, text, Len(hist)>>
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
===========================================================================
