----------------------------- MODULE M_AddrHdr -----------------------------
EXTENDS AddrHdr, Json
CONSTANTS Acts, Depth
VARIABLES s, hist, obs
vars == <<s, hist, obs>>
Init == s = InitState(<< >>) /\ hist = << >> /\ obs = R("none")
Next == Len(hist) < Depth /\ \E a \in Acts : (hist # << >> => a.op = "again") /\ \E p \in Post(s, a) : s' = p.s /\ obs' = p.obs /\ hist' = Append(hist, a)
Spec == Init /\ [][Next]_vars
TypeOK == StateOK(s)
(* H01: what was written reads back as the value it was written from *)
RoundTrip == s.last # << >> /\ obs.r = "val" /\ Written(IF hist[Len(hist)].op = "again" THEN "path" ELSE hist[Len(hist)].k)
             => Value(s.last[1].k, <<s.last[1].x>>) = <<obs.v>>
(* No value holds what would end it: names are tokens, texts have no control characters, URIs have no headers *)
Clean == obs.r = "val" => \A i \in DOMAIN obs.v : OkName(obs.v[i].d) /\ \A p \in obs.v[i].ps : OkPar(p) /\ p.n = Low(p.n)
View == <<s, obs, Len(hist), IF Len(hist) = 1 THEN hist ELSE << >> >>
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
=============================================================================
