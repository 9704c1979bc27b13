------------------------------- MODULE M_Uri -------------------------------
(* Texts assembled from parts and edited character by character are parsed, *)
(* then changed.  Every URI has a text that means exactly that URI, and a   *)
(* change touches nothing but what it names.                                *)
EXTENDS Uri, Json
CONSTANTS Texts, Edit, EditChars, Acts, Depth
VARIABLES s, hist
vars == <<s, hist>>
Op(x) == [op |-> "parse", x |-> x]
Do(a) == \E p \in Post(s, a) : s' = p.s /\ hist' = Append(hist, a)
Edits(x) == {Upto(x, i) \o c \o From(x, i + 1) : i \in 0..Len(x), c \in EditChars}
            \cup {Upto(x, i - 1) \o c \o From(x, i + 1) : i \in 1..Len(x), c \in EditChars}
            \cup {Upto(x, i - 1) \o From(x, i + 1) : i \in 1..Len(x)}
Init == s = InitState(<< >>) /\ hist = << >>
Begin == hist = << >> /\ \E x \in Texts : Do(Op(x)) \/ (Edit /\ \E y \in Edits(x) : Do(Op(y)))
Next == Begin \/ (hist # << >> /\ Len(hist) < Depth /\ \E a \in Acts : Do(a))
Spec == Init /\ [][Next]_vars

TypeOK == StateOK(s)
RoundTrip == s.u # None => Parse(Write(s.u[1])) = s.u
\* what is stripped stays stripped, and no header hides in another part
NoHeaders == (hist # << >> /\ s.u # None /\ s.u[1].k = "sip" /\ s.u[1].hdrs = {}) => ~Has(Write(s.u[1]), {"?"})
\* at most one place for the user, and the host is what follows it
OneUser == (s.u # None /\ s.u[1].k = "sip") =>
  Cardinality({i \in 1..Len(Write(s.u[1])) : Ch(Write(s.u[1]), i) = "@"}) <= 1 \/ s.u[1].hdrs # {}
\* a change touches only what it names
Fields == {"k", "sips", "user", "host", "port", "params", "hdrs", "num", "glob", "ctx", "abs"}
Touches == [host |-> {"host"}, user |-> {"user"}, port |-> {"port"}, noport |-> {"port"}, nohdrs |-> {"hdrs"},
            param |-> {"params"}, tparam |-> {"params", "ctx"}, ctx |-> {"params", "ctx"}]
Local == [][(hist # << >> /\ hist'[Len(hist')].op = "with" /\ s.u # None) =>
             \A f \in Fields \ Touches[hist'[Len(hist')].c.f] : s'.u[1][f] = s.u[1][f]]_vars
View == <<s, Len(hist), IF Len(hist) = 1 THEN hist ELSE << >> >>
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
===========================================================================
