--------------------------------- MODULE Dns ---------------------------------
(***************************************************************************)
(* Locating SIP servers (RFC 3263) over a zone of DNS data, with servers    *)
(* handed out by DHCP (RFC 3361), and ENUM names and records (RFC 6116).    *)
(*                                                                         *)
(* cfg: [naptr]  whether service records of that kind are asked for.        *)
(* State: z    the zone: naptr <<[n, o, p, s, r]>>, srv <<[n, p, w, port,   *)
(*             t]>>, a and aaaa <<[n, ip]>>, fail <<[n, ty, how]>>          *)
(*        dhcp [how, servers]: what DHCP offers.                            *)
(* An address is [sips, host, num, port, tp]: num is "4" or "6" when the    *)
(* host is a numeric address; port 0 when absent; tp << >> when absent.     *)
(* A target is <<host, port, transport, priority, tls name>>.               *)
(***************************************************************************)
EXTENDS Text

InitState(cfg) == [cfg |-> cfg, z |-> [naptr |-> << >>, srv |-> << >>, a |-> << >>, aaaa |-> << >>, fail |-> << >>],
                   dhcp |-> [how |-> "none", servers |-> << >>]]
R(x) == [r |-> x]
MaxTargets == 100

(* ------------------------------------------------------------ transports *)
Named == [tcp |-> "TCP", udp |-> "UDP", tls |-> "TLS", ws |-> "WS", wss |-> "WSS", sctp |-> "SCTP"]
TpOf(x) == LET l == Low(x) IN IF l = "tls-sctp" THEN "TLS-SCTP" ELSE IF l \in DOMAIN Named THEN Named[l] ELSE "UDP"
Secure == {"TLS", "WSS", "TLS-SCTP"}
Proto(t) == CASE t = "UDP" -> "udp" [] t \in {"SCTP", "TLS-SCTP"} -> "sctp" [] OTHER -> "tcp"
Service(t, sips) == IF sips \/ t \in Secure THEN "_sips" ELSE "_sip"
Asked(u) == IF u.sips THEN <<"TLS">> ELSE IF u.tp = << >> THEN << >> ELSE <<TpOf(u.tp[1])>>
Chosen(u) == IF Asked(u) = << >> THEN "UDP" ELSE Asked(u)[1]
(* 5061 for TLS; WebSocket addresses without a port are left to the stack  *)
DefaultPorts(t) == CASE t \in {"TLS", "TLS-SCTP"} -> {5061} [] t = "WS" -> {80, 5060} [] t = "WSS" -> {443, 5060, 5061} [] OTHER -> {5060}
ServiceField == ("SIPS+D2T" :> "TLS") @@ ("SIP+D2T" :> "TCP") @@ ("SIP+D2U" :> "UDP") @@ ("SIPS+D2W" :> "WSS") @@ ("SIP+D2W" :> "WS")
                @@ ("SIPS+D2S" :> "TLS-SCTP") @@ ("SIP+D2S" :> "SCTP")
UpOf == [c \in Lower |-> LET i == CHOOSE i \in 1..26 : Ch(LowerS, i) = c IN Ch(UpperS, i)]
RECURSIVE Up(_)
Up(x) == IF x = "" THEN "" ELSE LET c == Ch(x, 1) IN (IF c \in Lower THEN UpOf[c] ELSE c) \o Up(From(x, 2))

(* ------------------------------------------------------------ zone lookups *)
Bare(n) == IF n # "" /\ Ch(n, Len(n)) = "." THEN Upto(n, Len(n) - 1) ELSE n
Key(n) == Low(Bare(n))
Fails(z, n, ty) == \E i \in DOMAIN z.fail : z.fail[i].n = Key(n) /\ z.fail[i].ty = ty
Silent(z, n, ty) == \E i \in DOMAIN z.fail : z.fail[i].n = Key(n) /\ z.fail[i].ty = ty /\ z.fail[i].how = "drop"
At(list, n) == SelectSeq(list, LAMBDA x : x.n = Key(n))
Ips(z, n, ty) == IF Fails(z, n, ty) THEN << >> ELSE LET q == At(IF ty = "A" THEN z.a ELSE z.aaaa, n) IN [i \in DOMAIN q |-> q[i].ip]
(* both families, the newer first, turn and turn about *)
RECURSIVE Interleave(_, _)
Interleave(p, q) == IF p = << >> THEN q ELSE IF q = << >> THEN p ELSE <<p[1], q[1]>> \o Interleave(Tail(p), Tail(q))
(* the possible answers: with one family silent the other may or may not have been awaited in vain *)
Addresses(z, n) ==
  LET both == Interleave(Ips(z, n, "AAAA"), Ips(z, n, "A")) IN
  IF Silent(z, n, "A") \/ Silent(z, n, "AAAA") THEN {both, << >>} ELSE {both}

(* names of hosts mean the same in any letter case *)
Plain(o) == IF o.r = "t" THEN [o EXCEPT !.t = [i \in DOMAIN o.t |-> <<Low(o.t[i][1]), o.t[i][2], o.t[i][3], o.t[i][4], Low(o.t[i][5])>>]] ELSE o
(* A guide G narrows the orders looked at where several are allowed: all of *)
(* them, any one of them, or those that agree with a list that was observed. *)
Guide(e) == IF "obs" \notin DOMAIN e THEN [k |-> "all"] ELSE IF e.obs.r = "t" THEN [k |-> "obs", t |-> Plain(e.obs).t] ELSE [k |-> "one"]
Agrees(G, x, p) == G.k # "obs" \/ (p <= Len(G.t) /\ G.t[p] = x)
AgreeAll(G, q, p) == \A i \in DOMAIN q : Agrees(G, q[i], p + i - 1)
Narrow(G, S) == IF G.k = "one" THEN {CHOOSE i \in S : \A j \in S : i <= j} ELSE S
Lower2(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Sort(q) == TLCEval(SortSeq(q, LAMBDA x, y : Lower2(x.k, y.k)))
Lead(q) == {i \in DOMAIN q : q[i].k = q[1].k}
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
(* the orders of q, sorted by rank k, that respect the rank, from place p on *)
RECURSIVE Orders(_, _, _)
Orders(q, G, p) ==
  IF q = << >> THEN {<< >>}
  ELSE UNION {{<<q[i].v>> \o o : o \in Orders(Without(q, i), G, p + 1)} : i \in {j \in Narrow(G, Lead(q)) : Agrees(G, q[j].v, p)}}

(* the possible target lists of one service name; {<< >>} when it has none *)
Srv(z, n, t, G, p) ==
  LET q == IF Fails(z, n, "SRV") THEN << >> ELSE SelectSeq(At(z.srv, n), LAMBDA x : x.t # ".")
  IN Orders(Sort([i \in DOMAIN q |-> [k |-> <<q[i].p, 0>>, v |-> <<Low(Bare(q[i].t)), q[i].port, t, q[i].p, "">>]]), G, p)

Usable(u, x) == /\ Up(x.s) \in DOMAIN ServiceField /\ x.r # "."
                /\ (Asked(u) = << >> \/ ServiceField[Up(x.s)] = Asked(u)[1])
(* services in the order to try: [k rank, n name, t transport] *)
Services(s, u) ==
  LET q == IF ~s.cfg.naptr \/ Fails(s.z, u.host, "NAPTR") THEN << >> ELSE SelectSeq(At(s.z.naptr, u.host), LAMBDA x : Usable(u, x))
      ts == IF Asked(u) = << >> THEN <<"TCP", "UDP">> ELSE Asked(u)
  IN IF q = << >> THEN [i \in DOMAIN ts |-> [k |-> <<i, 0>>, n |-> Service(ts[i], u.sips) \o "._" \o Proto(ts[i]) \o "." \o u.host, t |-> ts[i]]]
     ELSE Sort([i \in DOMAIN q |-> [k |-> <<q[i].o, q[i].p>>, n |-> q[i].r, t |-> ServiceField[Up(q[i].s)]]])
RECURSIVE AllSrv(_, _, _, _)
AllSrv(z, q, G, p) ==
  IF q = << >> THEN {<< >>}
  ELSE UNION {UNION {{x \o y : y \in AllSrv(z, Without(q, i), G, p + Len(x))} : x \in Srv(z, q[i].n, q[i].t, G, p)} : i \in Narrow(G, Lead(q))}

(* ------------------------------------------------------------ resolution *)
(* the possible lists for an address, without regard to their length; << >> is failure *)
Hosts(z, u, ports) == {[i \in DOMAIN q |-> <<q[i], port, Chosen(u), 0, Low(u.host)>>] : q \in Addresses(z, u.host), port \in ports}
Located(s, u, G, p) ==
  IF u.num # "" THEN {<< <<Low(u.host), port, Chosen(u), 0, "">> >> : port \in IF u.port # 0 THEN {u.port} ELSE DefaultPorts(Chosen(u))}
  ELSE IF u.port # 0 THEN Hosts(s.z, u, {u.port})
  ELSE LET srv == TLCEval(AllSrv(s.z, Services(s, u), G, p))
       IN IF srv # {<< >>} THEN srv ELSE Hosts(s.z, u, DefaultPorts(Chosen(u)))
Bounded(q) == IF Len(q) > MaxTargets THEN << >> ELSE q
Resolved(s, u, G, p) == {Bounded(q) : q \in Located(s, u, G, p)}

(* a name DHCP may give: what can stand as the host of an address *)
HostChars == AlNum \cup {"-", ".", "_"}
Fits(x) == x # "" /\ All(x, HostChars) /\ Len(x) <= 253
Offered(s, u, v, G, p) ==
  LET q == IF v.k = "ip" THEN {<< <<v.v, port, Chosen(u), 0, "">> >> : port \in DefaultPorts(Chosen(u))}
           ELSE IF ~Fits(v.v) THEN {<< >>}
           ELSE Resolved(s, [u EXCEPT !.host = v.v, !.num = v.num, !.port = 0], G, p)
  IN {x \in q : AgreeAll(G, x, p)}
RECURSIVE AllOffered(_, _, _, _, _)
AllOffered(s, u, q, G, p) ==
  IF q = << >> THEN {<< >>} ELSE UNION {{x \o y : y \in AllOffered(s, u, Tail(q), G, p + Len(x))} : x \in Offered(s, u, q[1], G, p)}
ByDhcp(s, u, G) == IF s.dhcp.how # "list" THEN {<< >>} ELSE TLCEval(AllOffered(s, u, s.dhcp.servers, G, 1))

Out(q) == IF q = << >> THEN R("err") ELSE [r |-> "t", t |-> q]
Via(s, e, G) ==
  CASE e.via = "dns" -> {Out(q) : q \in Resolved(s, e.u, G, 1)}
    [] e.via = "dhcp" -> {Out(Bounded(q)) : q \in ByDhcp(s, e.u, G)}
    [] e.via = "hybrid" -> UNION {IF q = << >> THEN {Out(x) : x \in Resolved(s, e.u, G, 1)} ELSE {Out(Bounded(q))} : q \in ByDhcp(s, e.u, G)}
(* what agrees with the observation, or else one of the lists that were possible *)
Resolve(s, e) == LET q == TLCEval(Via(s, e, Guide(e))) IN IF q = {} \/ ("obs" \in DOMAIN e /\ Plain(e.obs) \notin q) THEN Via(s, e, [k |-> "one"]) ELSE q

(* ------------------------------------------------------------ DHCP options *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Printable(b) == b \in 32..126
RECURSIVE Txt(_)
Txt(b) == IF b = << >> THEN "" ELSE Ch(Ascii, b[1] - 31) \o Txt(Tail(b))
Ip4(b) == ToString(b[1]) \o "." \o ToString(b[2]) \o "." \o ToString(b[3]) \o "." \o ToString(b[4])
RECURSIVE Ip4s(_)
Ip4s(b) == IF b = << >> THEN << >> ELSE <<Ip4(b)>> \o Ip4s(SubSeq(b, 5, Len(b)))
(* names of length-prefixed labels, each closed by an empty label: <<list>> or None *)
RECURSIVE Names(_, _)
Names(b, labels) ==
  IF b = << >> THEN IF labels = << >> THEN <<<< >>>> ELSE None
  ELSE LET n == b[1] IN
       IF n = 0 THEN IF labels = << >> \/ Len(Join(labels, ".")) > 253 THEN None
                     ELSE LET rest == Names(Tail(b), << >>) IN IF rest = None THEN None ELSE <<<<Join(labels, ".")>> \o rest[1]>>
       ELSE IF n > 63 \/ Len(b) < n + 1 \/ ~\A i \in 2..n + 1 : Printable(b[i]) /\ b[i] # 46 THEN None
       ELSE Names(SubSeq(b, n + 2, Len(b)), Append(labels, Txt(SubSeq(b, 2, n + 1))))
List(k, q) == [r |-> "list", l |-> [i \in DOMAIN q |-> <<k, q[i]>>]]
RECURSIVE Chop(_)
Chop(b) == IF b # << >> /\ b[Len(b)] = 0 THEN Chop(SubSeq(b, 1, Len(b) - 1)) ELSE b
Option(e) ==
  LET b == e.bytes IN
  CASE e.no = 120 ->
        IF b = << >> THEN R("err")
        ELSE IF b[1] = 1 THEN IF Len(b) = 1 \/ (Len(b) - 1) % 4 # 0 THEN R("err") ELSE List("ip", Ip4s(Tail(b)))
        ELSE IF b[1] = 0 THEN LET q == Names(Tail(b), << >>) IN IF q = None \/ q = <<<< >>>> THEN R("err") ELSE List("name", q[1])
        ELSE R("err")
    [] e.no = 150 -> IF b = << >> \/ Len(b) % 4 # 0 THEN R("err") ELSE List("ip", Ip4s(b))
    [] e.no = 66 -> LET c == Chop(b) IN IF c = << >> \/ Len(c) > 253 \/ ~\A i \in DOMAIN c : Printable(c[i]) THEN R("err") ELSE List("name", <<Txt(c)>>)

(* ------------------------------------------------------------ ENUM *)
RECURSIVE Dotted(_)
Dotted(x) == IF x = "" THEN "" ELSE Dotted(From(x, 2)) \o (IF Len(x) = 1 THEN "" ELSE ".") \o Ch(x, 1)
EnumName(x) == IF Len(x) > 1 /\ Ch(x, 1) = "+" /\ IsNum(From(x, 2)) THEN <<Dotted(From(x, 2)) \o ".e164.arpa">> ELSE None
(* the text after the n-th delimiter, up to the next one; an escaped character never delimits *)
RECURSIVE Cut(_, _, _)
Cut(x, d, i) == IF i > Len(x) THEN Len(x) + 1 ELSE IF Ch(x, i) = "\\" THEN Cut(x, d, i + 2) ELSE IF Ch(x, i) = d THEN i ELSE Cut(x, d, i + 1)
UriIn(re) ==
  LET x == Trim(re) d == Ch(x, 1)
      j == Cut(x, d, 2) k == Cut(x, d, j + 1)
  IN IF Len(x) < 2 \/ j > Len(x) \/ k <= j + 1 \/ j = Len(x) THEN None ELSE <<SubSeq(x, j + 1, k - 1)>>
IsSip(x) == EqNoCase(x.s, "E2U+sip")
Sorted(q) == LET o == SortSeq([i \in DOMAIN q |-> i], LAMBDA i, j : Lower2(<<q[i].o, q[i].p>>, <<q[j].o, q[j].p>>) \/ (q[i].o = q[j].o /\ q[i].p = q[j].p /\ i < j))
             IN [i \in DOMAIN o |-> q[o[i]]]
Ids(q) == [i \in DOMAIN q |-> q[i].id]
Enum(e) ==
  CASE e.k = "name" -> [r |-> "enum", x |-> EnumName(e.x)]
    [] e.k = "tel" -> [r |-> "enum", x |-> EnumName(e.num)]
    [] e.k = "uri" -> [r |-> "enum", x |-> UriIn(e.x)]
    [] e.k = "recs" -> LET sips == SelectSeq(e.recs, IsSip) best == Sorted(sips)
                       IN [r |-> "recs", sorted |-> Ids(Sorted(e.recs)), sip |-> Ids(sips), best |-> IF best = << >> THEN None ELSE <<best[1].id>>,
                           term |-> Ids(SelectSeq(e.recs, LAMBDA x : Has(x.f, {"u", "U"})))]

(* ------------------------------------------------------------ steps *)
Post(s, e) ==
  CASE e.op = "zone" -> {[s |-> [s EXCEPT !.z = e.z], obs |-> R("ok")]}
    [] e.op = "dhcp" -> {[s |-> [s EXCEPT !.dhcp = [how |-> e.how, servers |-> e.servers]], obs |-> R("ok")]}
    [] e.op = "resolve" -> {[s |-> s, obs |-> o] : o \in Resolve(s, e)}
    [] e.op = "draw" -> {[s |-> s, obs |-> R("fair")]}
    [] e.op = "static" -> {[s |-> s, obs |-> [r |-> "n", n |-> IF e.n > MaxTargets THEN 0 - 1 ELSE e.n]]}
    [] e.op = "option" -> {[s |-> s, obs |-> Option(e)]}
    [] e.op = "enum" -> {[s |-> s, obs |-> Enum(e)]}
    [] e.op = "target" -> {[s |-> s, obs |-> IF e.host = "" \/ Len(e.host) > 253 \/ Has(e.host, {"\r", "\n", "\t"}) THEN R("err")
                                             ELSE [r |-> "t", t |-> << <<Low(e.host), e.port, TpOf(e.tp), e.pr, Low(e.tls)>> >>]]}

(* The orders drawn for one priority: each order of the weighted targets as *)
(* often as the weights say, within 8 standard deviations.                  *)
RECURSIVE Sum(_)
Sum(q) == IF q = << >> THEN 0 ELSE q[1] + Sum(Tail(q))
Fair(e) ==
  LET w == e.w n == e.n
      W == Sum(w)
      Drawn(a, b) == LET m == {k \in DOMAIN e.obs.c : e.obs.c[k][1] = a /\ e.obs.c[k][2] = b} IN IF m = {} THEN 0 ELSE e.obs.c[CHOOSE k \in m : TRUE][3]
      Total == Sum([k \in DOMAIN e.obs.c |-> e.obs.c[k][3]])
  IN /\ Total = n
     /\ \A a, b \in DOMAIN w : a # b =>
          LET D == W * (W - w[a])
              x == w[a] * w[b]
              d == Drawn(a, b) * D - n * x
          IN d * d <= 64 * n * x * (D - x)
Norm(e) == IF e.op \in {"resolve", "target"} THEN Plain(e.obs) ELSE IF e.op = "draw" THEN IF e.obs.r = "drawn" /\ Fair(e) THEN R("fair") ELSE R("unfair") ELSE e.obs
StateOK(s) == TRUE
=============================================================================
