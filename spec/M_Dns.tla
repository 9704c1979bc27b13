------------------------------- MODULE M_Dns -------------------------------
(* Every address of Uris over every zone of Zones, directly and with every  *)
(* offer of DHCP.  The rules of RFC 3263 hold for whatever comes out.       *)
EXTENDS Dns, Json
CONSTANTS Zones, Uris, Vias, Offers, Others, Naptr
VARIABLES s, hist, last
vars == <<s, hist, last>>
Do(a) == \E p \in Post(s, a) : s' = p.s /\ hist' = Append(hist, a) /\ last' = p.obs
Init == (\E n \in Naptr : s = InitState([naptr |-> n])) /\ hist = << >> /\ last = R("ok")
Next == \/ hist = << >> /\ \E z \in Zones : Do([op |-> "zone", z |-> z])
        \/ hist = << >> /\ \E o \in Others : Do(o)
        \/ Len(hist) = 1 /\ hist[1].op = "zone" /\ \E o \in Offers : Do(o)
        \/ Len(hist) \in 1..2 /\ hist[Len(hist)].op \in {"zone", "dhcp"}
             /\ \E u \in Uris, v \in Vias : (v # "dns" <=> Len(hist) = 2) /\ Do([op |-> "resolve", via |-> v, u |-> u])
Spec == Init /\ [][Next]_vars

TypeOK == StateOK(s)
A == hist[Len(hist)]
Found == hist # << >> /\ A.op = "resolve" /\ last.r = "t"
T == last.t
\* a secure address yields only TLS targets, an explicit transport only that one
Kept == Found => \A i \in DOMAIN T : Asked(A.u) # << >> => T[i][3] = Asked(A.u)[1]
\* a numeric address or an explicit port is taken as it is
Direct == (Found /\ A.via = "dns" /\ A.u.port # 0) => \A i \in DOMAIN T : T[i][2] = A.u.port
Numeric == (Found /\ A.via = "dns" /\ A.u.num # "") => Len(T) = 1 /\ T[1][1] = Low(A.u.host)
\* addresses carry the name their certificate is checked against, other targets none
Names5922 == (Found /\ A.via = "dns") => \A i \in DOMAIN T : T[i][5] \in {"", Low(A.u.host)}
\* service records and plain addresses never mix, and within one transport priorities rise
Pure == (Found /\ A.via = "dns" /\ A.u.num = "") => \A i, j \in DOMAIN T : (T[i][5] = "") = (T[j][5] = "")
Rising == (Found /\ A.via = "dns" /\ Len(s.z.naptr) < 2) => \A i, j \in DOMAIN T : (i < j /\ T[i][3] = T[j][3]) => T[i][4] <= T[j][4]
Few == Found => Len(T) <= MaxTargets
\* what is closest to the start of the services is preferred
View == <<s, hist>>
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
===========================================================================
