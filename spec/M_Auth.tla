----------------------------- MODULE M_Auth -----------------------------
(* Bounded exhaustive model of Auth with history ghosts.                   *)
EXTENDS Auth, Json
CONSTANTS Acts, Depth, Cfgs, MaxNow
VARIABLES s, acc, hist  \* acc: accepted attempts <<n, nc, req, time>> in order
vars == <<s, acc, hist>>

Possible(x) == /\ x.op \in {"send", "info"} => x.k <= Len(s.sent)
               /\ x.op \in {"attempt", "sign", "stale"} => x.n <= s.t.top
               /\ x.op = "info" => x.vn <= s.t.top
Init == /\ \E c \in Cfgs : s = InitState(c) /\ hist = << >> /\ acc = << >>
Next == /\ Len(hist) < Depth
        /\ \E a \in {x \in Acts : Possible(x)} : \E p \in Post(s, a) :
             /\ p.s.now <= MaxNow
             /\ s' = p.s /\ hist' = Append(hist, a)
             /\ acc' = IF a.op \in {"attempt", "send"} /\ p.obs.r = "ok"
                       THEN LET c == IF a.op = "send" THEN s.sent[a.k] ELSE Cred(a)
                            IN Append(acc, [n |-> c.n, nc |-> c.nc, req |-> Req(a), at |-> s.now, c |-> c])
                       ELSE IF a.op = "m_use" /\ p.obs.r = "ok"
                       THEN Append(acc, [n |-> 0 - a.n, nc |-> a.nc, req |-> Req(a), at |-> s.now, c |-> [user |-> ""]])
                       ELSE acc
Spec == Init /\ [][Next]_vars
Act == hist'[Len(hist')]
TypeOK == StateOK(s)

(* A02: counts of a nonce never go back, and a count serves one request *)
NoReplay == \A i, j \in DOMAIN acc : (i < j /\ acc[i].n = acc[j].n) =>
              \/ acc[i].nc < acc[j].nc
              \/ acc[i].nc = acc[j].nc /\ acc[i].req = acc[j].req
(* A01: whatever is accepted was signed with the user's password, under an *)
(* issued nonce that had not expired                                       *)
Sound == \A i \in DOMAIN acc : acc[i].n > 0 =>
           /\ acc[i].c.pass = Pass(s.cfg, acc[i].c.user) /\ Known(s.cfg, acc[i].c.user)
           /\ acc[i].n <= s.t.top
           /\ Ran(acc[i].c.muts) \subseteq Benign(s.cfg)
(* A02: a refused attempt leaves the nonce table alone *)
NoTrace == [][ (Act.op \in {"attempt", "send", "m_use", "info", "stale", "m_look"} /\ acc' = acc) =>
                 (s'.t = s.t /\ s'.m = s.m) ]_vars
(* A03: an expired nonce never comes back *)
Final == [][ \A n \in DOMAIN s.t.n : ~Valid(s.t, s.now, n) => ~Valid(s'.t, s'.now, n) ]_vars
(* A04: a client's next request under a live nonce is always accepted      *)
Interop == [][ (Act.op = "sign" /\ Valid(s.t, s.now, Act.n) /\ ~Lapsed(s.t, s.now, Act.n)
                /\ Pass(s.cfg, Act.user) = Act.pass /\ Known(s.cfg, Act.user)
                /\ s.t.n[Act.n].nc < s'.cl[Act.c].nc /\ s'.cl[Act.c].nc <= s.t.n[Act.n].nc + NcJump)
               => LET c == s'.sent[Len(s'.sent)]
                      a == [method |-> c.method, uri |-> c.uri, body |-> c.body, src |-> ""]
                  IN Verify(s', c, a).obs.r = "ok" ]_vars
View == <<s, acc>>
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
===========================================================================
