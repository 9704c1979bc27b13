----------------------------- MODULE M_ViaCred ------------------------------
EXTENDS ViaCred, Json
CONSTANTS Acts, Depth
VARIABLES s, hist, obs
vars == <<s, hist, obs>>
Init == s = InitState(<< >>) /\ hist = << >> /\ obs = R("none")
Next == Len(hist) < Depth /\ \E a \in Acts : \E p \in Post(s, a) : p.obs.r # "none" /\ s' = p.s /\ obs' = p.obs /\ hist' = Append(hist, a)
Spec == Init /\ [][Next]_vars
TypeOK == StateOK(s)
(* H04: what is written reads back as what it was written from, no parameter more or less *)
RoundTrip == /\ s.via # << >> => ReadVia(WriteVia(s.via[1])) = s.via
             /\ s.cred # << >> => (Fits(s.cred[1]) => ReadCred(WriteCred(s.cred[1])) = <<Held(s.cred[1])>>)
(* values without quotes and backslashes come back exactly; quoting is as Digest wants it *)
Exact == s.cred # << >> => LET c == s.cred[1] IN (\A p \in c.ps : ~Has(p.v, {"\"", "\\"})) => Held(c) = c /\ QuotesOK(WriteCred(c), c)
(* a refused step changes nothing *)
Refused == [][obs'.r = "err" => s' = s]_vars
View == <<s, obs, Len(hist)>>
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
=============================================================================
