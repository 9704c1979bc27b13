----------------------------- MODULE M_SecAgree -----------------------------
EXTENDS SecAgree, Json
CONSTANTS Acts, Depth
VARIABLES s, hist, obs
vars == <<s, hist, obs>>
Init == s = InitState(<< >>) /\ hist = << >> /\ obs = R("none")
Next == Len(hist) < Depth /\ \E a \in Acts : \E p \in Post(s, a) : p.obs.r # "none" /\ s' = p.s /\ obs' = p.obs /\ hist' = Append(hist, a)
Spec == Init /\ [][Next]_vars
TypeOK == StateOK(s)
(* C03: a header that is written reads back as the entries it was written from *)
RoundTrip == \A d \in Sides : s.h[d] # << >> => Read(Write(s.h[d])) = <<MapSeq(s.h[d], Given)>>
(* the chosen mechanism is one both offer, and no common one is preferred by both sides *)
Mutual == LET sv == s.h.server cl == s.h.client v == Weights(sv) u == Weights(cl) IN
  \A i \in Chosen(sv, cl) :
  IF i = 0 THEN \A k \in DOMAIN sv : ~Has1(cl, sv[k].m)
  ELSE /\ Has1(cl, sv[i].m)
       /\ ~\E k \in DOMAIN sv : Has1(cl, sv[k].m) /\ v[k] > v[i] /\ \A x, y \in DOMAIN cl : cl[x].m = sv[k].m /\ cl[y].m = sv[i].m => u[x] > u[y]
(* the order lists every entry once, none after one it is preferred to *)
Sorted == \A d \in Sides : LET q == Order(s.h[d]) w == Weights(s.h[d]) IN
  Range(q) = DOMAIN s.h[d] /\ \A i, j \in DOMAIN q : i < j => w[q[i]] >= w[q[j]]
QTexts == \A n \in {0, 1, 5, 10, 42, 100, 120, 500, 999, 1000} : QOf(QText(n)) = n
ASSUME QTexts
View == <<s, obs, Len(hist)>>
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
=============================================================================
