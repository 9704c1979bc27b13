---------------------------- MODULE M_Transaction ----------------------------
EXTENDS Transaction, Json
CONSTANTS Acts, Depth, Cfg
VARIABLES s, hist, out
vars == <<s, hist, out>>
(* Every act gets its step number as the marker of its message.            *)
Mark(a) == IF "code" \in DOMAIN a \/ a.op \in {"start", "req"} THEN [n |-> Len(hist) + 1] @@ a ELSE a
Init == s = InitState(Cfg) /\ hist = << >> /\ out = << >>
Log(o) == [i \in DOMAIN out \cup {v.x : v \in o.outs} |->
             LET old == IF i \in DOMAIN out THEN out[i] ELSE << >>
                 new == {v \in o.outs : v.x = i}
             IN IF new = {} THEN old ELSE LET q == (CHOOSE v \in new : TRUE).o IN old \o [k \in 1..Len(q) |-> q[k].w]]
Next == /\ Len(hist) < Depth
        /\ \E a0 \in Acts : LET a == Mark(a0) IN \E p \in Post(s, a) :
             s' = p.s /\ hist' = Append(hist, a) /\ out' = Log(p.obs)
Spec == Init /\ [][Next]_vars
Act == hist'[Len(hist')]
TypeOK == StateOK(s)
Is(w, p) == Len(w) >= Len(p) /\ SubSeq(w, 1, Len(p)) = p
Count(i, p) == Cardinality({k \in 1..Len(out[i]) : Is(out[i][k], p)})
Starts(i) == Cardinality({k \in 1..Len(hist) : hist[k].op = "start" /\ Cid(hist[k].b, hist[k].m) = i})
(* A client transaction reports at most one outcome (a late success after  *)
(* a failure excepted), and once over it is silent.                        *)
Fins(i) == Count(i, "final ")
OneOutcome == \A i \in DOMAIN out :
   Starts(i) = 1 => /\ Count(i, "end ") <= 1
                    /\ Count(i, "final ") > 0 => Count(i, "end ") = 0
                    /\ Count(i, "final ") <= 1 + Count(i, "ack2xx ")
Over(i) == Starts(i) = 1 /\ i \notin DOMAIN s.tx
SilentAfter == [][ \A i \in DOMAIN out : Over(i) /\ Starts(i)' = 1 => out'[i] = out[i] ]_vars
(* Every non-2xx final to a live INVITE is acknowledged each time.         *)
Acked1 == [][ (Act.op = "resp" /\ Act.m = "INVITE" /\ Act.code >= 300 /\ Cid(Act.b, Act.m) \in DOMAIN s.tx)
              => Is(out'[Cid(Act.b, Act.m)][Len(out'[Cid(Act.b, Act.m)])], "ack ") ]_vars
(* A step on one transaction leaves every other one untouched.             *)
Touches(i) == CASE Act.op \in {"start", "resp"} -> i = Cid(Act.b, Act.m)
                [] Act.op \in {"req", "ack", "sendp", "sendf"} -> i = Key(Act)
                [] OTHER -> TRUE
Isolated == [][ \A i \in DOMAIN s.tx : ~Touches(i) =>
                  \/ i \in DOMAIN s'.tx /\ s'.tx[i] = s.tx[i]
                  \/ Act.op \in {"start", "req"} /\ i \notin DOMAIN s'.tx ]_vars
(* A server transaction changes its answer only before the final one.      *)
OneFinal == [][ \A i \in DOMAIN s.tx : i \in DOMAIN s'.tx /\ IsS(s.tx[i]) /\ s.tx[i].st # "Proceeding" /\ s'.tx[i].born = s.tx[i].born
                  => s'.tx[i].w = s.tx[i].w /\ s'.tx[i].st # "Proceeding" ]_vars
View == s
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
=============================================================================
