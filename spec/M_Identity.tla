----------------------------- MODULE M_Identity -----------------------------
(* Tokens made and tampered with in every listed way, then presented with   *)
(* every key and every choice of certificates.                              *)
EXTENDS Identity, Json
CONSTANTS Cfgs, Makes, Shows, Depth
VARIABLES s, hist, last
vars == <<s, hist, last>>
Do(a) == \E p \in Post(s, a) : s' = p.s /\ hist' = Append(hist, a) /\ last' = p.obs
IsMake(a) == a.op \in {"token", "sign"}
Replays(a) == \E i \in DOMAIN a.tam : a.tam[i].k = "prevsig"
Init == s \in {InitState(c) : c \in Cfgs} /\ hist = << >> /\ last = R("ok")
Next == /\ Len(hist) < Depth
        /\ (hist # << >> => IsMake(hist[Len(hist)]))
        /\ \/ \E a \in Makes : (Replays(a) => s.tok # None) /\ Do(a)
           \/ s.tok # None /\ \E a \in Shows : Do(a)
Spec == Init /\ [][Next]_vars

TypeOK == StateOK(s)
A == hist[Len(hist)]
Yes == hist # << >> /\ A.op \in {"verify", "chain"} /\ last.r = "ok"
LastMade == hist[CHOOSE i \in DOMAIN hist : IsMake(hist[i]) /\ \A j \in DOMAIN hist : j > i => ~IsMake(hist[j])]
\* whatever verifies was left exactly as its signer wrote it, or carries a signature over exactly that
Unaltered == Yes => \/ LastMade.tam = << >>
                    \/ \A i \in DOMAIN LastMade.tam : LastMade.tam[i].k \in {"prevsig", "put"}
OnlyES256 == Yes => Alg(s.tok[1]) = "ES256"
\* with no anchor, at the wrong time or with a leaf that may issue, nothing is trusted
NoAnchor == (Yes /\ A.op = "chain") => A.anchors # << >> /\ LET c == s.cfg.certs[A.leaf] IN ~c.ca /\ c.nb <= A.now /\ A.now <= c.na /\ c.key = s.tok[1].key
\* certificates that are added never take trust away
Monotone == (hist # << >> /\ A.op = "chain" /\ Trusted(s, A)) =>
              \A j \in DOMAIN s.cfg.certs : Trusted(s, [A EXCEPT !.inters = Append(A.inters, j)]) /\ Trusted(s, [A EXCEPT !.anchors = Append(A.anchors, j)])
\* the header never shows more than the token allows
HeaderNeedsToken == (hist # << >> /\ A.op = "header" /\ last.r = "hdr") => Decodes(s.tok[1])
View == <<s, hist>>
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
=============================================================================
