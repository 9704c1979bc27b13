----------------------------- MODULE M_Privacy -----------------------------
EXTENDS Privacy, Json
CONSTANTS Acts, Depth, Secrets
VARIABLES s, hist
vars == <<s, hist>>
Init == s = InitState(<< >>) /\ hist = << >>
Next == Len(hist) < Depth /\ \E a \in Acts : \E p \in Post(s, a) : s' = p.s /\ hist' = Append(hist, a)
Spec == Init /\ [][Next]_vars
TypeOK == StateOK(s)
LastIs(op) == hist # << >> /\ hist[Len(hist)].op = op
Contains(x, y) == \E i \in 1..Len(x) - Len(y) + 1 : SubSeq(x, i, i + Len(y) - 1) = y
(* P01: after the privacy service ran, nothing that names the user is left *)
NoLeak == [][hist'[Len(hist')].op = "enforce" =>
    LET v == hist'[Len(hist')].v IN
    /\ Ident(v) /\ ~TooLong(s.h) =>
         /\ DOMAIN s'.h \cap Asserted = {}
         /\ \A n \in DOMAIN s'.h \cap {"from", "contact"} :
              Len(s'.h[n]) = 1 /\ \A z \in Secrets : ~Contains(s'.h[n][1], z)
    /\ Heads(v) /\ ~(Ident(v) /\ TooLong(s.h)) => DOMAIN s'.h \cap Removable = {}
    /\ \A n \in DOMAIN s.h \ (Removable \cup Asserted \cup {"from", "contact"}) : n \in DOMAIN s'.h /\ s'.h[n] = s.h[n]
    /\ v = <<"none">> => s'.h = s.h]_vars
(* P02: what is written is what was built: as many identities, and the same *)
RoundTrip == [][(hist'[Len(hist')].op = "put" /\ s.ids # << >> /\ Len(s.ids) <= MaxIds) =>
    LET n == IdLine(hist'[Len(hist')].w) l == s'.h[n] IN ReadIds(<<l[Len(l)]>>) = <<s.ids>>]_vars
View == <<s, Len(hist), IF Len(hist) = 1 THEN hist ELSE << >> >>
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
=============================================================================
