----------------------------- MODULE M_SipMsg -----------------------------
(* Datagrams assembled from start lines, header lines and bodies are read,  *)
(* then the message is changed and written.  A message is never read        *)
(* differently by the two readings, its body is what its length says, and   *)
(* what is written means the message again.                                 *)
EXTENDS SipMsg, Json
CONSTANTS Starts, HeaderLines, MaxLines, Bodies, Modes, Fixed, Acts, Depth
VARIABLES s, hist
vars == <<s, hist>>
Do(a) == \E p \in Post(s, a) : s' = p.s /\ hist' = Append(hist, a)
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Datagrams == {[op |-> "parse", kind |-> st.k, mode |-> md, lim |-> 0, lines |-> <<st.x>> \o Fixed \o h \o b, raw8 |-> FALSE]
              : st \in Starts, md \in Modes, h \in Seqs(HeaderLines, MaxLines), b \in Bodies}
Init == s = InitState(<< >>) /\ hist = << >>
Begin == hist = << >> /\ \E a \in Datagrams : Do(a)
Next == Begin \/ (hist # << >> /\ s.m # None /\ Len(hist) < Depth /\ \E a \in Acts : Do(a))
Spec == Init /\ [][Next]_vars

TypeOK == StateOK(s)
Last == hist[Len(hist)]
Other(a) == [a EXCEPT !.mode = CASE @ = "plain" -> "strict" [] @ = "strict" -> "plain" [] OTHER -> @]
(* both readings agree on whatever the strict one accepts, and the body is exactly as long as declared *)
OneReading == (Len(hist) = 1 /\ s.m # None) =>
  LET m == s.m[1]
      cl == Values(m.hdrs, "content-length") IN
  /\ Last.mode = "strict" => Parse(Other(Last)) = s.m
  /\ Upto(DataOf(Last.lines), Len(m.body)) = m.body
  /\ \A i \in DOMAIN cl : IsNum(cl[i]) => Canon(cl[i]) = ToString(Len(m.body))
  /\ Last.mode = "strict" => m.body = DataOf(Last.lines)
  /\ \A n \in Single : Len(Values(m.hdrs, n)) <= 1
(* what is written is read as the message, in both readings alike; a message as it was read always is *)
Full(m) == [m EXCEPT !.hdrs = Out(m) \o <<[n |-> "content-length", v |-> ToString(Len(m.body))]>>, !.reason = Trim(@)]
Faithful == s.m # None =>
  LET m == s.m[1] IN
  /\ Again(m, FALSE) \in {None, <<Full(m)>>} /\ Again(m, TRUE) = Again(m, FALSE)
  /\ Len(hist) = 1 => Again(m, FALSE) = <<Full(m)>>
  /\ Again(m, FALSE) # None => Again(Again(m, FALSE)[1], TRUE) = Again(m, FALSE)
(* an operation on the header list touches only the header it names, and keeps the order *)
Without(h, n) == SelectSeq(h, LAMBDA x : x.n # n)
Local == [][(hist # << >> /\ hist'[Len(hist')].op \in {"push", "set", "replace", "remove", "maxf"} /\ s.m # None) =>
            LET a == hist'[Len(hist')]
                n == IF a.op = "maxf" THEN "max-forwards" ELSE Low(a.n) IN
            /\ Without(s'.m[1].hdrs, n) = Without(s.m[1].hdrs, n)
            /\ [s'.m[1] EXCEPT !.hdrs = << >>] = [s.m[1] EXCEPT !.hdrs = << >>]
            /\ Len(s'.m[1].hdrs) <= MaxHeaders]_vars
(* hops left never grow *)
Hops == [][(hist # << >> /\ hist'[Len(hist')].op = "maxf" /\ Values(Held(s), "max-forwards") # << >>) =>
            LET v == Values(Held(s), "max-forwards")[1]
                w == Values(Held(s'), "max-forwards")[1] IN
            w = v \/ (IsNum(Trim(v)) /\ Val(w) = Val(Trim(v)) - 1)]_vars
View == <<s, Len(hist), IF Len(hist) = 1 THEN hist ELSE << >> >>
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
===========================================================================
