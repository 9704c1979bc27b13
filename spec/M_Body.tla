------------------------------- MODULE M_Body -------------------------------
EXTENDS Body, Json
CONSTANTS Acts, Depth
VARIABLES s, hist, obs
vars == <<s, hist, obs>>
Init == s = InitState(<< >>) /\ hist = << >> /\ obs = R("none")
Starts == {"cnew", "mnew", "fnew", "read"}
Next == Len(hist) < Depth /\ \E a \in Acts : (hist = << >>) = (a.op \in Starts) /\ \E p \in Post(s, a) : p.obs.r # "none" /\ s' = p.s /\ obs' = p.obs /\ hist' = Append(hist, a)
Spec == Init /\ [][Next]_vars
TypeOK == StateOK(s)
(* B01: a document can always be written so that it reads back: here, CPIM messages with their escapes, in the standard form *)
Pars(ps) == Concat(MapSeq(AnySeq(ps), LAMBDA p : ";" \o p.n \o "=" \o p.v))
WriteC(v) == "Content-type: Message/CPIM" \o NL \o NL
  \o Concat(MapSeq(AnySeq(v.hs), LAMBDA e : Concat(MapSeq(e.q, LAMBDA h : e.n \o ":" \o Pars(h.ps) \o " " \o Escaped(h.v) \o NL)))) \o NL
  \o "Content-type: " \o v.ct \o NL \o Concat(MapSeq(AnySeq(v.ch), LAMBDA e : e.n \o ": " \o e.v \o NL)) \o NL \o v.b
Readable == s.k = "cpim" => CRead(WriteC(s.v[1])) = <<CClean(s.v[1])>>
(* totals never pass the largest number and are no less than their parts *)
Totals == obs.r = "mwi" => \A i \in 1..2 : Num(obs.t[i], U32) /\ \A e \in obs.cl : AtMost(e.n[i], obs.t[i])
View == <<s, obs, Len(hist), IF Len(hist) = 1 THEN hist ELSE << >> >>
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
=============================================================================
