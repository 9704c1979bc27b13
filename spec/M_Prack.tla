------------------------------ MODULE M_Prack ------------------------------
EXTENDS Prack, Json
CONSTANTS Acts, Depth, MaxNow
VARIABLES s, sent, acked, hist
vars == <<s, sent, acked, hist>>
(* sent / acked: how often each <<dialog, key>> was sent and acknowledged  *)
Init == s = InitState(<< >>) /\ sent = << >> /\ acked = << >> /\ hist = << >>
Inc(f, k) == Put(f, k, (IF k \in DOMAIN f THEN f[k] ELSE 0) + 1)
Next == /\ Len(hist) < Depth
        /\ \E a \in Acts : \E p \in Post(s, a) :
             /\ p.s.now <= MaxNow
             /\ s' = p.s /\ hist' = Append(hist, a)
             /\ sent' = IF a.op = "reg" THEN Inc(sent, <<a.d, Key(a)>>) ELSE sent
             /\ acked' = IF a.op = "prack" /\ p.obs.r = "ok" THEN Inc(acked, <<a.d, Key(a)>>) ELSE acked
Spec == Init /\ [][Next]_vars
Act == hist'[Len(hist')]
TypeOK == StateOK(s)
(* D05: only what was sent in that dialog is acknowledged, once per sending *)
AtMostOnce == \A k \in DOMAIN acked : k \in DOMAIN sent /\ acked[k] <= sent[k]
Isolated ==
  [][ Act.op # "tick" => \A d \in DOMAIN s.p \ {Act.d} : d \in DOMAIN s'.p /\ s'.p[d] = s.p[d] ]_vars
(* a provisional that waits is never lost but by time, overflow or removal *)
KeptWaiting ==
  [][ Act.op \in {"prack", "is", "pending", "rmp"} =>
        \A d \in DOMAIN s.p : \A i \in 1..Len(s.p[d]) :
          LET e == s.p[d][i] IN
          (~e.done /\ s.now - e.at <= Timeout)
            => \/ \E j \in 1..Len(s'.p[d]) : s'.p[d][j] = e
               \/ Act.op = "prack" /\ Act.d = d /\ Key(Act) = Key(e) ]_vars
View == <<s, sent, acked>>
Emit == PrintT("@E@" \o ToJson([cfg |-> [x |-> 0], ev |-> hist']))
===========================================================================
