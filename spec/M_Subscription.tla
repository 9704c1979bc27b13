--------------------------- MODULE M_Subscription ---------------------------
EXTENDS Subscription, Json
CONSTANTS Acts, Depth
VARIABLES s, hist
vars == <<s, hist>>
Init == s = InitState(<< >>) /\ hist = << >>
Next == /\ Len(hist) < Depth
        /\ \E a \in Acts : \E p \in Post(s, a) : s' = p.s /\ hist' = Append(hist, a)
Spec == Init /\ [][Next]_vars
Act == hist'[Len(hist')]
TypeOK == StateOK(s)
Kept(x) == x \in DOMAIN s.s /\ x \in DOMAIN s'.s /\ ~(Act.op \in {"new", "load"} /\ Act.x = x)
NoRevival == [][ \A x \in DOMAIN s.s : Kept(x) /\ s.s[x].st = "terminated" => s'.s[x].st = "terminated" ]_vars
NumbersRise == [][ \A x \in DOMAIN s.s : Kept(x) => s'.s[x].lc >= s.s[x].lc
                     /\ (Act.op = "next" /\ Act.x = x => s'.s[x].lc > s.s[x].lc) ]_vars
OnlyFromSuccess == [][ (Act.op = "new" /\ Act.x \in DOMAIN s'.s) => Act.resp.code \in 200..299 ]_vars
TableExact ==
  [][ \A i \in DOMAIN s.m \cup DOMAIN s'.m :
        \/ i \in DOMAIN s.m /\ i \in DOMAIN s'.m /\ s'.m[i] = s.m[i]
        \/ Act.op = "put" /\ i \in DOMAIN s'.m /\ s'.m[i] = s.s[Act.x]
        \/ Act.op = "rm" /\ i = Act.id /\ i \notin DOMAIN s'.m
        \/ Act.op = "clean" /\ s.m[i].st = "terminated" /\ i \notin DOMAIN s'.m ]_vars
View == s
Emit == PrintT("@E@" \o ToJson([cfg |-> [x |-> 0], ev |-> hist']))
===========================================================================
