------------------------------- MODULE M_Proxy -------------------------------
EXTENDS Proxy, Json
CONSTANTS Acts, Depth, Cfg
VARIABLES s, hist, up
vars == <<s, hist, up>>
Mark(a) == IF a.op = "resp" THEN [n |-> Len(hist) + 1] @@ a ELSE a
Init == s = InitState(Cfg) /\ hist = << >> /\ up = << >>
Next == /\ Len(hist) < Depth
        /\ \E a0 \in Acts : LET a == Mark(a0) IN \E p \in Post(s, a) :
             s' = p.s /\ hist' = Append(hist, a) /\ up' = up \o p.obs.fwd
Spec == Init /\ [][Next]_vars
Act == hist'[Len(hist')]
TypeOK == StateOK(s)
New == SubSeq(up', Len(up) + 1, Len(up'))
Fails(q) == {k \in 1..Len(q) : q[k].code >= 300}
Fins(q) == {k \in 1..Len(q) : q[k].code >= 200}
(* Once a success or a global failure went upstream, only successes do.    *)
Settled == \E k \in 1..Len(up) : up[k].code \in 200..299 \/ up[k].code >= 600
OnlySuccesses == [][ Settled => \A k \in 1..Len(New) : New[k].code \in 200..299 ]_vars
(* Every success is passed on, at once.                                    *)
EverySuccess == [][ (Act.op = "resp" /\ Act.code \in 200..299 /\ Act.b \in DOMAIN s.br) => New = <<Msg(Act)>> ]_vars
(* A failure goes upstream only when no branch is left waiting, or it is   *)
(* global; and it is the best of all that were received.                   *)
FailureLast == [][ Fails(New) # {} => (Live(s') = {} \/ \A k \in Fails(New) : New[k].code >= 600) ]_vars
FailureBest == [][ \A k \in Fails(New) : \A b \in DOMAIN s'.br :
                     s'.br[b].code # 0 => Rank(New[k].code) <= Rank(s'.br[b].code) ]_vars
(* When the last branch fails and nothing settled it, something is sent.   *)
NoneForgotten == [][ (Live(s) # {} /\ Live(s') = {} /\ ~s.ok /\ ~s.six) => Fins(New) # {} ]_vars
(* Challenges are complete.                                                *)
AllChallenges == [][ \A k \in Fails(New) : New[k].code \in {401, 407} =>
                      \A b \in Challenged(s') : s'.br[b].www \subseteq New[k].www /\ s'.br[b].px \subseteq New[k].px ]_vars
Never100 == \A k \in 1..Len(up) : up[k].code # 100
View == s
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
=============================================================================
