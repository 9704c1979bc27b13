--------------------------- MODULE M_SessionTimer ---------------------------
EXTENDS SessionTimer, Json
CONSTANTS Acts, Depth, MaxNow
VARIABLES s, log, since, hist
vars == <<s, log, since, hist>>
(* log[k]: events of the current timer of k; since[k]: <<start, se, ref>>, << >> if stopped *)
Keys == {a.k : a \in {b \in Acts : "k" \in DOMAIN b}}
Init == s = InitState(<< >>) /\ log = [k \in Keys |-> << >>] /\ since = [k \in Keys |-> << >>] /\ hist = << >>
Mine(v, k) == SelectSeq(v, LAMBDA e : e[2] = k)
Kinds(v, k) == [i \in 1..Len(Mine(v, k)) |-> Mine(v, k)[i][1]]
Next == /\ Len(hist) < Depth
        /\ \E a \in Acts : \E p \in Post(s, a) :
             /\ p.s.now <= MaxNow
             /\ s' = p.s /\ hist' = Append(hist, a)
             /\ LET what == IF a.op \in {"race", "race2"} THEN a.what ELSE a.op
                    v == IF p.obs.r = "events" THEN p.obs.v ELSE IF p.obs.r = "race" THEN p.obs.v ELSE << >>
                    w == IF p.obs.r = "race" THEN p.obs.w ELSE << >>
                    sub(k) == what = "clear" \/ (what \in {"start", "refresh", "stop"} /\ a.k = k)
                IN /\ since' = [k \in Keys |-> IF ~sub(k) THEN since[k]
                                               ELSE IF what \in {"stop", "clear"} THEN << >> ELSE <<p.s.now, a.se, a.ref>>]
                   /\ log' = [k \in Keys |-> IF sub(k) THEN Kinds(w, k) ELSE log[k] \o Kinds(v \o w, k)]
Spec == Init /\ [][Next]_vars
Act == hist'[Len(hist')]
TypeOK == StateOK(s)
(* D06: a timer's events are exactly those due by now, once each, in order *)
Exact == \A k \in Keys :
  log[k] = IF since[k] = << >> THEN << >>
           ELSE (IF since[k][3] /\ s.now >= since[k][1] + since[k][2] \div 2 THEN <<"refresh">> ELSE << >>)
                \o (IF s.now >= since[k][1] + since[k][2] THEN <<"expired">> ELSE << >>)
Present == \A k \in Keys : k \in DOMAIN s.t <=> since[k] # << >> /\ s.now < since[k][1] + since[k][2]
(* D07 *)
NegoOK == \A se \in {60, 90, 120, 1800}, l \in {90, 120, 600}, m \in {-1, 90, 300}, f \in {-1, 60, 100, 900, 3600} :
  LET x == Negotiate([se |-> se, lmin |-> l, rmin |-> m, pref |-> f]) IN
  /\ x.r = "ok" => x.n >= l /\ x.n >= m /\ x.n <= se
  /\ x.r = "refused" <=> se < Max(l, m)
  /\ x.r = "refused" => x.n = Max(l, m)
Complement == \A p \in {"-", "uac", "uas", "UAS", "x"} : Role(p).uac # Role(p).uas
View == <<s, log, since>>
Emit == PrintT("@E@" \o ToJson([cfg |-> [x |-> 0], ev |-> hist']))
===========================================================================
