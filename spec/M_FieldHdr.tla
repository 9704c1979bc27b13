----------------------------- MODULE M_FieldHdr -----------------------------
EXTENDS FieldHdr, Json
CONSTANTS Acts, Depth
VARIABLES s, hist, obs
vars == <<s, hist, obs>>
Init == s = InitState(<< >>) /\ hist = << >> /\ obs = R("none")
Next == Len(hist) < Depth /\ \E a \in Acts : (hist # << >> => a.op = "again") /\ \E p \in Post(s, a) : s' = p.s /\ obs' = p.obs /\ hist' = Append(hist, a)
Spec == Init /\ [][Next]_vars
TypeOK == StateOK(s)
(* H02, H03: what was written reads back as the value it was written from *)
RoundTrip == obs.r = "val" /\ obs.x # "" => Value(s.last[1].k, obs.x) = <<V(obs.d, obs.ps)>>
(* no value holds a parameter name that is not a token in lower case *)
Clean == obs.r = "val" => \A p \in obs.ps : NamePar(p) /\ p.n = Low(p.n)
(* the day numbers of the dates are consistent with the calendar *)
Calendar == \A n \in {0, 58, 59, 789, 10957, 11016, 11017, 24836, 24837, 47540, 47541, 47846} :
              LET x == DateText(n, 86399) IN LooksDate(x) /\ Date(x).n = n /\ Moment(x) = ToString(n) \o ":86399"
ASSUME Calendar
(* a message is passed on at most 255 times *)
Bounded == obs.r = "mf" /\ obs.n \notin {"invalid", "exhausted"} => Num(obs.n, U8) /\ obs.h[1] = obs.n
View == <<s, obs, Len(hist), IF Len(hist) = 1 THEN hist ELSE << >> >>
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
=============================================================================
