----------------------------- MODULE M_Dialog -----------------------------
(* Bounded exhaustive models of Dialog.  Acts selects the focus.           *)
EXTENDS Dialog, Json
CONSTANTS Acts, Depth
VARIABLES s, acc, hist   \* acc = CSeq numbers of requests accepted, in order
vars == <<s, acc, hist>>

Init == s = InitState(<< >>) /\ acc = << >> /\ hist = << >>
Next == /\ Len(hist) < Depth
        /\ \E a \in Acts : \E p \in Post(s, a) :
             /\ s' = p.s /\ hist' = Append(hist, a)
             /\ acc' = IF a.op = "new" THEN (IF ~a.uac /\ p.obs.r = "some" THEN <<a.req.cseq>> ELSE << >>)
                       ELSE IF a.op = "mload" THEN << >>
                       ELSE IF a.op = "req" /\ a.req.method # "ACK" /\ p.obs.r = "ok" THEN Append(acc, a.req.cseq)
                       ELSE acc
Spec == Init /\ [][Next]_vars
Act == hist'[Len(hist')]
Live == "x" \in DOMAIN s.d
D == s.d["x"]
E == s'.d["x"]
Kept == Live /\ "x" \in DOMAIN s'.d /\ Act.op \notin {"new", "mload"}

TypeOK == StateOK(s)
(* D01: no number is accepted twice or out of order; an ACK never moves it *)
InOrder == \A i \in 1..Len(acc)-1 : acc[i] < acc[i+1]
RefusedChangesNothing ==
  [][ (Act.op = "req" /\ Live) => (Accepts(D, Act.req) \/ E = D) ]_vars
AckHarmless ==
  [][ (Act.op = "req" /\ Live /\ Act.req.method = "ACK") => E.rc = D.rc ]_vars
(* D02: early, confirmed, terminated; never back, and nothing after the end *)
Forward == [][ Kept => E.st >= D.st ]_vars
EndIsEnd == [][ (Kept /\ D.st = Terminated) => [E EXCEPT !.lc = 0, !.se = 0] = [D EXCEPT !.lc = 0, !.se = 0] ]_vars
OnlyInviteConfirms ==
  [][ (Kept /\ D.st = Early /\ E.st = Confirmed)
      => Act.op = "confirm" \/ (Act.op = "resp" /\ Act.resp.code \in 200..299 /\ RespMethod(Act.resp) = "INVITE") ]_vars
(* D03: the route set is fixed from confirmation on; the identity always   *)
RouteFixed == [][ (Kept /\ D.st # Early) => E.rs = D.rs ]_vars
TargetRefresh ==
  [][ (Kept /\ E.tgt # D.tgt)
      => \/ Act.op = "req" /\ Act.req.method \in Refresh /\ E.rc > D.rc
         \/ Act.op = "resp" /\ RespMethod(Act.resp) \in Refresh /\ Act.resp.code < 300 ]_vars
IdentityFixed == [][ Kept => E.id = D.id /\ E.uac = D.uac /\ E.sec = D.sec ]_vars
(* D04: tables hold the last version put and lose only what is removed     *)
TableExact ==
  [][ \A i \in DOMAIN s.m \cup DOMAIN s'.m :
        \/ i \in DOMAIN s.m /\ i \in DOMAIN s'.m /\ s'.m[i] = s.m[i]
        \/ Act.op = "mput" /\ i \in DOMAIN s'.m /\ s'.m[i] = s.d[Act.x]
        \/ Act.op = "mrm" /\ i = Act.id /\ i \notin DOMAIN s'.m
        \/ Act.op = "mclean" /\ s.m[i].st = Terminated /\ i \notin DOMAIN s'.m ]_vars

View == <<s, acc>>
Emit == PrintT("@E@" \o ToJson([cfg |-> [x |-> 0], ev |-> hist']))
===========================================================================
