------------------------------ MODULE Privacy ------------------------------
(***************************************************************************)
(* Privacy of a message (RFC 3323, RFC 3325): what a Privacy header asks   *)
(* for, what the privacy service does to the other headers, and the        *)
(* asserted / preferred identities carried in P-headers.                   *)
(* h: header name in lower case -> values in order.  ids: identities being *)
(* built, [name, uri, ps] with ps a set of [n, v] (v = << >> or <<text>>). *)
(***************************************************************************)
EXTENDS Quoted

InitState(cfg) == [cfg |-> cfg, h |-> << >>, ids |-> << >>]
R(x) == [r |-> x]
Keep(s, o) == {[s |-> s, obs |-> o]}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, K) == [x \in DOMAIN f \ K |-> f[x]]
Vals(h, n) == IF n \in DOMAIN h THEN h[n] ELSE << >>

\* ------------------------------------------------------------ Privacy
Known == {"none", "header", "session", "user", "id", "critical"}
MaxPriv == 10   MaxPrivText == 256   MaxAddr == 1024
OkPriv(v) == v # << >> /\ Len(v) <= MaxPriv /\ (Len(v) > 1 => \A i \in DOMAIN v : v[i] # "none")
ReadPriv(x) ==
  LET v == MapSeq(Filter(MapSeq(Split(x, ";"), Trim), LAMBDA y : y # ""), Low) IN
  IF Len(x) <= MaxPrivText /\ Range(v) \subseteq Known /\ OkPriv(v) THEN <<v>> ELSE << >>
Wants(v, K) == Range(v) \cap K # {}
Ident(v) == Wants(v, {"id", "user"})
Heads(v) == Wants(v, {"header", "user"})
Sess(v) == Wants(v, {"session", "user"})
PrivObs(v) == [r |-> "priv", v |-> v, x |-> Join(v, "; "), crit |-> Wants(v, {"critical"}), none |-> Wants(v, {"none"}),
               ident |-> Ident(v), heads |-> Heads(v), sess |-> Sess(v)]
(* The message's own request: its first Privacy line, if it can be read *)
Asked(h) == IF Vals(h, "privacy") = << >> THEN << >> ELSE ReadPriv(h["privacy"][1])

Removable == {"subject", "call-info", "organization", "user-agent", "reply-to", "in-reply-to", "server"}
Asserted == {"p-asserted-identity", "p-preferred-identity"}
Anon == "\"Anonymous\" <sip:anonymous@anonymous.invalid>"
(* header parameters of an address: up to the end of that address *)
ParamsOf(x) == LET p == From(x, Find(x, {";"}, 1, FALSE, FALSE)) IN
               Trim(Upto(p, Find(p, {","}, 1, FALSE, FALSE) - 1))
Anonymous(h, n) == IF Vals(h, n) = << >> THEN h ELSE Put(h, n, <<Anon \o ParamsOf(h[n][1])>>)
Cut(h, v) == IF Heads(v) THEN Drop(h, Removable) ELSE h
TooLong(h) == \E n \in {"from", "contact"} : Vals(h, n) # << >> /\ Len(h[n][1]) > MaxAddr
Enforced(h, v) ==
  LET c == Cut(h, v) IN
  IF ~Ident(v) THEN c ELSE Drop(Anonymous(Anonymous(c, "from"), "contact"), Asserted)
HObs(r, h) == [r |-> r, h |-> {[n |-> n, v |-> h[n]] : n \in DOMAIN h}]
FromObs(o) == [n \in {e.n : e \in Range(o.h)} |-> (CHOOSE e \in Range(o.h) : e.n = n).v]
(* A message whose addresses are too long is refused; it is then not to be  *)
(* sent, whatever it looks like.                                            *)
DoEnforce(s, v, a) ==
  IF Ident(v) /\ TooLong(s.h)
  THEN LET h == IF "obs" \in DOMAIN a /\ a.obs.r = "err" THEN FromObs(a.obs) ELSE s.h IN
       {[s |-> [s EXCEPT !.h = h], obs |-> HObs("err", h)]}
  ELSE LET h == TLCEval(Enforced(s.h, v)) IN {[s |-> [s EXCEPT !.h = h], obs |-> HObs("hdrs", h)]}

\* ------------------------------------------------------------ identities
MaxName == 256   MaxPName == 64   MaxPVal == 256   MaxPs == 20   MaxIds == 10
Ctl == {"\t", "\r", "\n", "\f"}
UriKind(u) == CASE u \in {"sip:alice@home.example", "sip:alice@home.example;user=phone", "sips:bob@b.example:5061", "sip:10.0.0.1",
                          "sip:a,b@h.example", "sip:bob@h", "sip:boss@h.example", "sip:carol@c.example?Subject=x"} -> "sip"
                [] u \in {"tel:+15551234567", "tel:911;phone-context=+1"} -> "tel"
                [] u \in {"https://x.example/a", "urn:service:sos"} -> "abs"
                [] OTHER -> ""
OkName(x) == Len(x) <= MaxName /\ ~Has(x, Ctl)
RECURSIVE Balanced(_, _)
Balanced(x, quoted) ==
  IF x = "" THEN ~quoted
  ELSE LET c == Ch(x, 1) IN
       IF quoted /\ c = "\\" THEN Len(x) > 1 /\ Balanced(From(x, 3), TRUE)
       ELSE IF c = "\"" THEN Balanced(From(x, 2), ~quoted)
       ELSE (quoted \/ c \notin {";", ",", "<", ">"}) /\ Balanced(From(x, 2), quoted)
OkPar(p) == IsToken(p.n) /\ Len(p.n) <= MaxPName /\ (p.v # << >> => Len(p.v[1]) <= MaxPVal /\ ~Has(p.v[1], Ctl) /\ Balanced(p.v[1], FALSE))
OkPars(ps) == Len(ps) <= MaxPs /\ (\A i \in DOMAIN ps : OkPar(ps[i]))
              /\ \A i, j \in DOMAIN ps : i # j => Low(ps[i].n) # Low(ps[j].n)
ParSet(ps) == {[n |-> Low(ps[i].n), v |-> MapSeq(ps[i].v, Trim)] : i \in DOMAIN ps}
Identity(name, uri, ps) == [name |-> name, uri |-> uri, ps |-> ParSet(ps)]

ReadPar(x) == LET j == To(x, {"="}, 1) IN
  IF j > Len(x) THEN [n |-> x, v |-> << >>] ELSE [n |-> Trim(Upto(x, j - 1)), v |-> <<Trim(From(x, j + 1))>>]
ReadPars(x) == MapSeq(Trimmed(SplitQ(x, ";")), ReadPar)
(* one identity; << >> when it cannot be read *)
ReadId(x) ==
  LET lt == ToQ(x, {"<", ">"}, 1, FALSE)
      gt == ToQ(x, {"<", ">"}, lt + 1, FALSE)
      plain == lt > Len(x)
      semi == To(x, {";"}, 1)
      name == IF plain THEN "" ELSE NameText(Trim(Upto(x, lt - 1)))
      uri == IF plain THEN Trim(Upto(x, semi - 1)) ELSE Trim(SubSeq(x, lt + 1, gt - 1))
      ps == ReadPars(IF plain THEN From(x, semi + 1) ELSE From(x, gt + 1))
  IN IF ~plain /\ (Ch(x, lt) = ">" \/ gt > Len(x) \/ Ch(x, gt) = "<") THEN << >>
     ELSE IF UriKind(uri) = "" \/ ~OkName(name) \/ ~OkPars(ps) THEN << >>
     ELSE <<Identity(name, uri, ps)>>
(* all lines; << >> when something cannot be read, else <<identities>> *)
ReadIds(lines) ==
  LET x == Cat(MapSeq(lines, LAMBDA l : Trimmed(Parts(l, ","))))
      v == TLCEval(MapSeq(x, ReadId)) IN
  IF (\E i \in DOMAIN v : v[i] = << >>) \/ Len(v) > MaxIds THEN << >> ELSE <<Cat(v)>>
First(v, k) == LET q == Filter(v, LAMBDA i : UriKind(i.uri) = k) IN IF q = << >> THEN << >> ELSE <<q[1].uri>>
IdsObs(v) == [r |-> "ids", v |-> v, sip |-> First(v, "sip"), tel |-> First(v, "tel")]
IdLine(w) == IF w = "pai" THEN "p-asserted-identity" ELSE "p-preferred-identity"

(* one way to write them *)
WritePar(p) == ";" \o p.n \o (IF p.v = << >> THEN "" ELSE "=" \o p.v[1])
WriteId(i) == (IF i.name = "" THEN "" ELSE "\"" \o Escape(i.name) \o "\" ") \o "<" \o i.uri \o ">" \o Concat(MapSeq(AnySeq(i.ps), WritePar))
WriteIds(v) == Join(MapSeq(v, WriteId), ", ")
TelUri(n) == IF Len(n) >= 4 /\ Upto(n, 4) = "tel:" THEN n ELSE "tel:" \o n

Post(s, a) ==
  CASE a.op = "hdr" -> {[s |-> [s EXCEPT !.h = Put(@, Low(a.n), Append(Vals(@, Low(a.n)), a.v))], obs |-> R("ok")]}
    [] a.op = "privacy" -> LET v == ReadPriv(a.x) IN Keep(s, IF v = << >> THEN R("err") ELSE PrivObs(v[1]))
    [] a.op = "build" -> Keep(s, IF OkPriv(a.v) THEN PrivObs(a.v) ELSE R("err"))
    [] a.op = "asks" -> LET v == Asked(s.h) IN
         Keep(s, [r |-> IF v # << >> /\ ~Wants(v[1], {"none"}) THEN "yes" ELSE "no", v |-> v])
    [] a.op = "enforce" -> DoEnforce(s, a.v, a)
    [] a.op = "apply" -> LET v == Asked(s.h) IN IF v = << >> THEN Keep(s, R("no")) ELSE DoEnforce(s, v[1], a)
    [] a.op = "ids" -> LET l == Vals(s.h, IdLine(a.w)) v == ReadIds(l) IN
         Keep(s, IF v = << >> THEN R("err") ELSE IF v[1] = << >> THEN R("none") ELSE IdsObs(v[1]))
    [] a.op = "own" ->
         IF OkName(a.name) /\ OkPars(a.ps)
         THEN {[s |-> [s EXCEPT !.ids = Append(@, Identity(a.name, a.uri, a.ps))], obs |-> R("ok")]}
         ELSE Keep(s, R("err"))
    [] a.op = "simple" ->
         LET t == TelUri(a.n) i == (IF a.k = "tel" THEN << >> ELSE <<Identity("", a.uri, << >>)>>) \o (IF a.k = "sip" THEN << >> ELSE <<Identity("", t, << >>)>>) IN
         IF a.k # "sip" /\ UriKind(t) # "tel" THEN Keep(s, R("err")) ELSE {[s |-> [s EXCEPT !.ids = i], obs |-> R("ok")]}
    [] a.op = "put" ->                     \* writes the identities as a header line of the message
         IF s.ids = << >> \/ Len(s.ids) > MaxIds THEN Keep(s, R("err"))
         ELSE LET x == IF "obs" \in DOMAIN a /\ a.obs.r = "text" /\ ReadIds(<<a.obs.x>>) = <<s.ids>> THEN a.obs.x ELSE WriteIds(s.ids) n == IdLine(a.w) IN
              {[s |-> [s EXCEPT !.h = Put(@, n, Append(Vals(@, n), x)), !.ids = << >>], obs |-> [r |-> "text", x |-> x]]}
Norm(e) == IF "h" \in DOMAIN e.obs THEN [e.obs EXCEPT !.h = Range(@)]
           ELSE IF e.obs.r = "ids" THEN [e.obs EXCEPT !.v = MapSeq(@, LAMBDA i : [i EXCEPT !.ps = Range(@)])]
           ELSE e.obs
StateOK(s) == \A n \in DOMAIN s.h : n = Low(n) /\ s.h[n] # << >>
=============================================================================
