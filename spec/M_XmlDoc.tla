------------------------------- MODULE M_XmlDoc -------------------------------
EXTENDS XmlDoc, Json
CONSTANTS Acts, Depth
VARIABLES s, hist, obs
vars == <<s, hist, obs>>
Init == s = InitState(<< >>) /\ hist = << >> /\ obs = R("none")
Starts == {"new", "read", "junk"}
Next == Len(hist) < Depth /\ \E a \in Acts : (hist = << >>) = (a.op \in Starts) /\ \E p \in Post(s, a) : p.obs.r # "none" /\ s' = p.s /\ obs' = p.obs /\ hist' = Append(hist, a)
Spec == Init /\ [][Next]_vars
TypeOK == StateOK(s)
(* B02: the document that is written stands for what was put in, and reads back *)
Readable == s.k \in {"pidf", "winfo"} => ReadTree(s.k, Tree(s.k, s.v[1])) = <<Clean(s.k, s.v[1])>>
View == <<s, obs, Len(hist), IF Len(hist) = 1 THEN hist ELSE << >> >>
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
=============================================================================
