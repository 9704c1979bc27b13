----------------------------- MODULE M_SdpCore -----------------------------
(* Texts grow line by line from a pool and are parsed, then answered: what *)
(* is written reads back as the same description, nothing is lost, added   *)
(* or moved, an answer mirrors the offer, and a reservation never makes a  *)
(* met precondition unmet.                                                 *)
EXTENDS SdpCore, Json
CONSTANTS Pool, Starts, Acts, MaxLines, Depth
VARIABLES s, text, hist
vars == <<s, text, hist>>
Op(q) == [op |-> "parse", lines |-> q, eol |-> "\r\n", end |-> "\r\n", via |-> "core"]

Init == /\ text \in Starts
        /\ s = (CHOOSE p \in Post(InitState(<< >>), Op(text)) : TRUE).s /\ hist = <<Op(text)>>
Step(a) == \E p \in Post(s, a) : s' = p.s
More == /\ Len(text) < MaxLines /\ Len(hist) = 1
        /\ \E l \in Pool : text' = Append(text, l) /\ Step(Op(Append(text, l))) /\ hist' = <<Op(Append(text, l))>>
Do == /\ Len(hist) < Depth /\ s.d # << >>
      /\ \E a \in Acts : Step(a) /\ hist' = Append(hist, a) /\ UNCHANGED text
Next == More \/ Do
Spec == Init /\ [][Next]_vars

TypeOK == s.d # << >> => WellFormed(s.d)
\* every line that counts is written once for each time it was read, and none other
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
Many == {"e", "p", "b", "t", "r", "m"}
CanonOf(l) ==
  LET k == Ch(l, 1)
      x == From(l, 3)
      w == Words(x) IN
  CASE k = "b" -> "b=" \o Band(x)[1]
    [] k = "t" -> "t=" \o Canon(w[1]) \o " " \o Canon(w[2])
    [] k \in {"r", "o", "c"} -> Ch(l, 1) \o "=" \o Spaced(w)
    [] k = "m" -> "m=" \o Spaced(Media(w)[1].f)
    [] k = "a" -> LET a == AttrOf(x) IN
         IF a.v = << >> THEN l
         ELSE IF a.n = "group" /\ Group(a.v[1]) # << >> THEN "a=group:" \o Group(a.v[1])[1]
         ELSE IF a.n = "rtcp" /\ Rtcp(a.v[1]) # << >> THEN "a=rtcp:" \o Rtcp(a.v[1])[1]
         ELSE IF a.n = "cdsc" /\ Cdsc(a.v[1]) # << >> THEN "a=cdsc:" \o Cdsc(a.v[1])[1]
         ELSE IF a.n = "sqn" /\ Byte(a.v[1]) # << >> THEN "a=sqn:" \o Byte(a.v[1])[1] ELSE l
    [] OTHER -> l
SingleAttr == {"a=mid", "a=rtcp", "a=sqn"}
NameOf(l) == LET p == Split(l, ":") IN p[1]
\* raw session group on a media line stays as it is, so compare attributes in either form
Text0 == SelectSeq(text, LAMBDA l : l # "")
In == TLCEval(IF s.d = << >> THEN << >> ELSE [i \in DOMAIN Text0 |-> CanonOf(Text0[i])])
Kept == (Len(hist) = 1 /\ s.d # << >>) =>
  LET out == Write(s.d) IN
  /\ \A i \in DOMAIN out : Ch(out[i], 1) = "z" \/ \E j \in DOMAIN In : out[i] \in {In[j], Text0[j]}
  /\ \A j \in DOMAIN In : Ch(In[j], 1) \in Many \/ (Ch(In[j], 1) = "a" /\ NameOf(In[j]) \notin SingleAttr) =>
       Count(out, In[j]) + (IF Text0[j] = In[j] THEN 0 ELSE Count(out, Text0[j])) = Count(In, In[j])
\* each r= stays under its t=, each line below its m=
Under(q, kind, sub) ==       \* for each line of the kind, the sub lines before the next one
  LET I == SelectSeq([i \in DOMAIN q |-> i], LAMBDA i : Ch(q[i], 1) = kind)
      End(n) == IF n = Len(I) THEN Len(q) ELSE I[n + 1] - 1 IN
  [n \in DOMAIN I |-> SelectSeq(SubSeq(q, I[n], End(n)), LAMBDA l : Ch(l, 1) \in sub)]
Places == (Len(hist) = 1 /\ s.d # << >>) =>
  /\ Under(Write(s.d), "t", {"t", "r"}) = Under(In, "t", {"t", "r"})
  /\ Under(Write(s.d), "m", {"m", "b"}) = Under(In, "m", {"m", "b"})
\* required lines
Required == (Len(hist) = 1 /\ s.d # << >>) =>
  /\ Len(text) >= 4 /\ text[1] = "v=0" /\ \E i \in DOMAIN text : Ch(text[i], 1) = "t"
  /\ Len(s.d.m) > 0 => \E i \in DOMAIN text : Ch(text[i], 1) = "c"
\* seen twice from the other side, a precondition is itself
Involution == s.d # << >> => \A i \in DOMAIN s.d.m : \A c \in Range(Curr(s.d.m[i]) \o Want(s.d.m[i]) \o Conf(s.d.m[i])) : Mirror(Mirror(c)) = c
\* more reservations never unmeet
Monotone == s.d # << >> => \A i \in DOMAIN s.d.m :
  Met(s.d.m[i]) => \A w \in Ways, st \in Statuses :
     Met([s.d.m[i] EXCEPT !.a = Append(@, [n |-> "curr", v |-> <<"qos " \o st \o " " \o w>>])])
\* with no mandatory wish everything is met; with one that nobody reported, nothing is
Vacuous == s.d # << >> => \A i \in DOMAIN s.d.m :
  /\ (\A w \in Range(Want(s.d.m[i])) : w.sg # "mandatory") => Met(s.d.m[i])
  /\ (Curr(s.d.m[i]) = << >> /\ \E w \in Range(Want(s.d.m[i])) : w.sg = "mandatory") => ~Met(s.d.m[i])
View == <<s, text, Len(hist)>>
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
===========================================================================
