------------------------------ MODULE AddrHdr ------------------------------
(***************************************************************************)
(* Headers that carry addresses: From, To, Contact, Route, Path,           *)
(* Service-Route, Call-Info, History-Info, Geolocation, Referred-By.       *)
(* A value is a sequence of [d: display name, u: URI, ps: set of [n, v]];  *)
(* v = << >> or <<text>>.  last: what was written last and its value.      *)
(***************************************************************************)
EXTENDS Quoted

InitState(cfg) == [cfg |-> cfg, last |-> << >>]
R(x) == [r |-> x]

\* ------------------------------------------------------------ addresses
MaxName == 256   MaxPName == 64   MaxPVal == 256   MaxNa == 64
MaxRoutes == 50  MaxHist == 50    MaxGeo == 10     MaxFew == 20   MaxText == 2048
Ctl == {"\t", "\r", "\n", "\f"}
Sip == {"sip:alice@home.example", "sip:alice@home.example;user=phone", "sips:bob@b.example:5061", "sip:10.0.0.1;lr", "sip:10.0.0.1",
        "sip:a,b@h.example", "sip:[2001:db8::1]:5060;transport=tcp", "sip:p.example;lr", "sip:p.example", "sip:boss@h"}
Other == {"tel:+15551234567", "https://x.example/a", "urn:service:sos", "cid:target123@atlanta.example"}
Hdrs == [u \in {"sip:carol@c.example?Subject=x", "sip:d@h;lr?a=b&c=d"} |->
           IF u = "sip:d@h;lr?a=b&c=d" THEN "sip:d@h;lr" ELSE "sip:carol@c.example"]
(* the URI an address stands for: URI headers never flow into a header *)
UriText(u, strip) == IF u \in Sip \cup Other THEN <<u>>
                     ELSE IF u \in {"sip:d@h;lr", "sip:carol@c.example"} THEN <<u>>
                     ELSE IF u \in DOMAIN Hdrs THEN <<IF strip THEN Hdrs[u] ELSE u>> ELSE << >>
IsSip(u) == u \notin Other
Loose == {"sip:10.0.0.1;lr", "sip:p.example;lr", "sip:d@h;lr", "sip:d@h;lr?a=b&c=d"}

OkName(x) == Len(x) <= MaxName /\ ~Has(x, Ctl)
OkPName(n) == IsToken(n) /\ Len(n) <= MaxPName
OkText(x) == Len(x) <= MaxPVal /\ ~Has(x, Ctl)
OkPar(p) == OkPName(p.n) /\ (p.v # << >> => OkText(p.v[1]))
TokPar(p) == OkPName(p.n) /\ (p.v # << >> => IsToken(p.v[1]) /\ Len(p.v[1]) <= MaxPVal)
HistPar(p) == TokPar(p) \/ (OkPName(p.n) /\ p.v = <<"">>)
Dup(ps) == \E i, j \in DOMAIN ps : i # j /\ Low(ps[i].n) = Low(ps[j].n)
PSet(ps) == {[n |-> Low(ps[i].n), v |-> ps[i].v] : i \in DOMAIN ps}
Item(d, u, ps) == [d |-> d, u |-> u, ps |-> ps]

ReadPar(x) == LET j == To(x, {"="}, 1) IN
  IF j > Len(x) THEN [n |-> Low(x), v |-> << >>] ELSE [n |-> Low(Trim(Upto(x, j - 1))), v |-> <<ValText(Trim(From(x, j + 1)))>>]
ReadPs(x) == MapSeq(Trimmed(SplitQ(x, ";")), ReadPar)
LastOf(ps) == {ps[i] : i \in {i \in DOMAIN ps : \A j \in DOMAIN ps : j > i => ps[j].n # ps[i].n}}
(* one address; << >> when it cannot be read *)
ReadAddr(x, strip) ==
  LET t == Trim(x)
      lt == ToQ(t, {"<"}, 1, FALSE)
      gt == ToQ(t, {">"}, lt + 1, FALSE)
      plain == lt > Len(t)
      semi == To(t, {";"}, 1)
      name == IF plain THEN "" ELSE NameText(Trim(Upto(t, lt - 1)))
      u == UriText(IF plain THEN Trim(Upto(t, semi - 1)) ELSE Trim(SubSeq(t, lt + 1, gt - 1)), strip)
      ps == TLCEval(ReadPs(IF plain THEN From(t, semi + 1) ELSE From(t, gt + 1)))
  IN IF (~plain /\ gt > Len(t)) \/ u = << >> \/ ~OkName(name) \/ Cardinality(LastOf(ps)) > MaxNa
        \/ (\E p \in LastOf(ps) : ~OkPar(p)) THEN << >>
     ELSE <<Item(name, u[1], LastOf(ps))>>
RECURSIVE OpenAt(_, _)
OpenAt(x, quoted) == IF x = "" THEN quoted
  ELSE LET c == Ch(x, 1) IN
       IF quoted /\ c = "\\" THEN OpenAt(From(x, 3), TRUE) ELSE OpenAt(From(x, 2), IF c = "\"" THEN ~quoted ELSE quoted)
Pieces(x) == Trimmed(Parts(x, ","))
AllPieces(lines) == Cat(MapSeq(lines, Pieces))
(* every address of every line; << >> when one of them cannot be read *)
ReadList(lines, max) ==
  LET q == TLCEval(MapSeq(AllPieces(lines), LAMBDA x : ReadAddr(x, TRUE))) IN
  IF (\E i \in DOMAIN lines : OpenAt(lines[i], FALSE)) \/ (\E i \in DOMAIN q : q[i] = << >>) \/ Len(q) > max THEN << >> ELSE <<Cat(q)>>
(* the readable ones *)
ReadSome(lines) == Cat(MapSeq(AllPieces(Filter(lines, LAMBDA l : ~OpenAt(l, FALSE) /\ Len(Pieces(l)) <= MaxRoutes)), LAMBDA x : ReadAddr(x, TRUE)))

ReadRefPar(x) == LET j == To(x, {"="}, 1) w == Trim(From(x, j + 1)) IN
  IF j > Len(x) THEN [n |-> "", v |-> << >>]
  ELSE [n |-> Low(Trim(Upto(x, j - 1))), v |-> <<IF Len(w) >= 2 /\ Ch(w, 1) = "\"" /\ Ch(w, Len(w)) = "\"" THEN Unescape(SubSeq(w, 2, Len(w) - 1)) ELSE w>>]
OkRef(ps) == (\A i \in DOMAIN ps : OkPar(ps[i]) /\ ps[i].v # << >> /\ (Low(ps[i].n) = "cid" => ps[i].v[1] # "")) /\ ~Dup(ps)
             /\ Len(Filter(ps, LAMBDA p : Low(p.n) # "cid")) <= MaxFew
ReadRef(x) ==
  LET t == Trim(x)
      lt == ToQ(t, {"<", ">"}, 1, FALSE)
      gt == ToQ(t, {"<", ">"}, lt + 1, FALSE)
      plain == lt > Len(t)
      semi == To(t, {";"}, 1)
      name == IF plain THEN "" ELSE NameText(Trim(Upto(t, lt - 1)))
      u == UriText(IF plain THEN Trim(Upto(t, semi - 1)) ELSE Trim(SubSeq(t, lt + 1, gt - 1)), FALSE)
      ps == TLCEval(MapSeq(Trimmed(SplitQ(IF plain THEN From(t, semi + 1) ELSE From(t, gt + 1), ";")), ReadRefPar))
  IN IF (~plain /\ (Ch(t, lt) = ">" \/ gt > Len(t) \/ Ch(t, gt) = "<")) \/ u = << >> \/ ~OkName(name) \/ ~OkRef(ps) THEN << >>
     ELSE <<<<Item(name, u[1], PSet(ps))>>>>

\* ------------------------------------------------------------ headers
Singles == {"from", "to", "contact", "callinfo", "route", "routep"}
One(x) == IF x = << >> THEN << >> ELSE <<x>>
GeoItem(i) == [d |-> "", u |-> i.u, ps |-> {p \in i.ps : TokPar(p)}]
Bare(q) == MapSeq(q, LAMBDA i : [i EXCEPT !.d = ""])
Value(k, lines) ==
  CASE k \in Singles -> One(ReadAddr(lines[1], k # "route"))
    [] k \in {"routes", "calls"} -> <<ReadSome(lines)>>
    [] k \in {"path", "sr"} -> ReadList(lines, MaxRoutes)
    [] k = "hist" -> LET v == ReadList(lines, MaxHist) IN
         IF v = << >> \/ v = <<<< >>>> \/ \E i \in DOMAIN v[1] : Cardinality(v[1][i].ps) > MaxFew \/ \E p \in v[1][i].ps : ~HistPar(p)
         THEN << >> ELSE <<Bare(v[1])>>
    [] k = "geo" -> LET v == TLCEval(MapSeq(ReadSome(lines), GeoItem)) IN
         IF (\E i \in DOMAIN lines : OpenAt(lines[i], FALSE) \/ Len(Pieces(lines[i])) > MaxGeo) \/ v = << >> \/ Len(v) > MaxGeo THEN << >> ELSE <<v>>
    [] k = "refby" -> ReadRef(lines[1])
Read(k, lines) == IF k \in {"route", "refby"} /\ Len(lines[1]) > MaxText THEN << >> ELSE Value(k, lines)
Written(k) == k \notin {"hist", "geo"}

OkNa(i) == OkName(i.d) /\ Len(i.ps) <= MaxNa /\ (\A j \in DOMAIN i.ps : OkPar(i.ps[j])) /\ ~Dup(i.ps)
OkFew(i, P(_)) == Len(i.ps) <= MaxFew /\ (\A j \in DOMAIN i.ps : P(i.ps[j])) /\ ~Dup(i.ps)
OkMake(k, q) ==
  CASE k = "route" -> \A i \in DOMAIN q : OkNa(q[i])
    [] k \in {"path", "sr"} -> Len(q) <= MaxRoutes /\ \A i \in DOMAIN q : OkNa(q[i])
    [] k = "hist" -> q # << >> /\ Len(q) <= MaxHist /\ \A i \in DOMAIN q : OkFew(q[i], HistPar)
    [] k = "geo" -> q # << >> /\ Len(q) <= MaxGeo /\ \A i \in DOMAIN q : OkFew(q[i], TokPar)
    [] k = "refby" -> OkName(q[1].d) /\ OkRef(q[1].ps) /\ IsSip(q[1].u)
MakeValue(k, q) == MapSeq(q, LAMBDA i : Item(IF k \in {"hist", "geo"} THEN "" ELSE i.d, i.u, PSet(i.ps)))

Get(i, n) == LET f == {p \in i.ps : p.n = n} IN IF f = {} THEN << >> ELSE (CHOOSE p \in f : TRUE).v
LooseItem(i) == i.u \in Loose \/ \E p \in i.ps : p.n = "lr"
Opt(q) == IF q = << >> THEN "-" ELSE q[1]
Yes(b) == IF b THEN "yes" ELSE "no"
Extra(k, v) ==
  CASE k \in {"from", "to"} -> <<Opt(Get(v[1], "tag"))>>
    [] k \in {"route", "routep", "routes"} -> MapSeq(v, LAMBDA i : Yes(LooseItem(i)))
    [] k \in {"path", "sr"} -> <<Yes(\A i \in DOMAIN v : LooseItem(v[i]))>>
    [] k = "hist" -> MapSeq(v, LAMBDA i : Opt(Get(i, "index")) \o "/" \o Opt(Get(i, "rc")))
    [] k = "refby" -> <<Opt(Get(v[1], "cid"))>>
    [] OTHER -> << >>

WritePar(p) == ";" \o p.n \o (IF p.v = << >> THEN "" ELSE "=" \o WriteVal(p.v[1]))
WriteItem(i) == (IF i.d = "" THEN "" ELSE Quote(i.d) \o " ") \o "<" \o i.u \o ">" \o Concat(MapSeq(AnySeq(i.ps), WritePar))
Write(v) == Join(MapSeq(v, WriteItem), ", ")
(* k is in a value v, written as anything that reads as v *)
Shown(s, k, v, a) ==
  LET x == IF ~Written(k) THEN ""
           ELSE IF "obs" \in DOMAIN a /\ a.obs.r = "val" /\ Value(k, <<a.obs.x>>) = <<v>> THEN a.obs.x ELSE Write(v)
      last == IF Written(k) THEN <<[k |-> k, x |-> x]>> ELSE s.last
  IN {[s |-> [s EXCEPT !.last = last], obs |-> [r |-> "val", v |-> v, x |-> x, t |-> Extra(k, v)]]}
DoRead(s, k, lines, a) == LET v == TLCEval(Read(k, lines)) IN IF v = << >> THEN {[s |-> s, obs |-> R("err")]} ELSE Shown(s, k, v[1], a)
Post(s, a) ==
  CASE a.op = "read" -> DoRead(s, a.k, a.x, a)
    [] a.op = "make" -> IF OkMake(a.k, a.v) THEN Shown(s, a.k, TLCEval(MakeValue(a.k, a.v)), a) ELSE {[s |-> s, obs |-> R("err")]}
    [] a.op = "again" -> IF s.last = << >> THEN {[s |-> s, obs |-> R("none")]} ELSE DoRead(s, s.last[1].k, <<s.last[1].x>>, a)
Norm(e) == IF e.obs.r = "val" THEN [e.obs EXCEPT !.v = MapSeq(@, LAMBDA i : [i EXCEPT !.ps = Range(@)])] ELSE e.obs
StateOK(s) == Len(s.last) <= 1
=============================================================================
