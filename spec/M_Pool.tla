------------------------------- MODULE M_Pool -------------------------------
EXTENDS Pool, Json
CONSTANTS Acts, Depth, Cfg
VARIABLES s, hist, obs, acc, arr
vars == <<s, hist, obs, acc, arr>>
(* acc: by peer, what was accepted for it (as lengths); arr: what has arrived, pings aside *)
Count(xs, x) == Cardinality({i \in DOMAIN xs : xs[i] = x})
Add(f, p, x) == IF x = "" THEN f ELSE Put(f, p, (IF p \in DOMAIN f THEN f[p] ELSE "") \o x)
RECURSIVE AddAll(_, _)
AddAll(f, E) == IF E = {} THEN f ELSE LET x == CHOOSE x \in E : TRUE IN AddAll(Add(f, x.p, x.x), E \ {x})
Init == s = InitState(Cfg) /\ hist = << >> /\ obs = [r |-> "none"] /\ acc = << >> /\ arr = << >>
Next == Len(hist) < Depth /\ \E a \in Acts : \E p \in Post(s, a) :
          /\ p.obs.r # "none" /\ s' = p.s /\ obs' = p.obs /\ hist' = Append(hist, a)
          /\ acc' = IF a.op = "send" /\ p.obs.r = "sent" /\ p.obs.ok[1] THEN Add(acc, a.p, Glue(a.xs)) ELSE acc
          /\ arr' = IF a.op = "send" THEN AddAll(arr, p.obs.seen) ELSE arr
Spec == Init /\ [][Next]_vars
TypeOK == StateOK(s)
(* F02: exactly what was accepted arrives (orders within one concurrent batch aside) *)
Delivered == DOMAIN acc = DOMAIN arr /\ \A p \in DOMAIN acc : Len(acc[p]) = Len(arr[p])
InOrder == (\A i \in DOMAIN hist : hist[i].op = "send" => ~hist[i].conc) => acc = arr
(* one connection per peer at a time: a new one only after the old one is gone *)
OneEach == [][\A p \in Kept(s) \cap Kept(s') : s'.e[p].c = s.e[p].c]_vars
(* nothing in use is given up: only what the peer closed, what was idle, or for room *)
Reason == [][\A p \in Kept(s) \ Kept(s') :
               \/ hist'[Len(hist')].op = "close" /\ hist'[Len(hist')].p = p
               \/ Idle(s, p)
               \/ Cardinality(Kept(s)) = s.cfg.max /\ hist'[Len(hist')].op = "send"
                  /\ \A q \in Kept(s) \cap Kept(s') : q = hist'[Len(hist')].p \/ s.e[p].used <= s.e[q].used]_vars
(* whatever goes is told and closed *)
Announced == [][(Kept(s) \ Kept(s')) = {x.p : x \in obs'.shut}]_vars
View == <<s, obs, Len(hist)>>
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
=============================================================================
