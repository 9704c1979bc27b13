------------------------------- MODULE XmlDoc -------------------------------
(***************************************************************************)
(* XML bodies: presence documents (RFC 3863), watcher information (RFC     *)
(* 3858) and registration information (RFC 3680).                          *)
(* v: << >> or <<the document>>:                                           *)
(*  pidf  [e, ns: notes, ts: sequence of [id, st, c, ns, tm]]              *)
(*  winfo [ver, st, ls: sequence of [r, p, ws: sequence of watchers]]      *)
(*  reg   [ver, st, rs: sequence of [a, id, st, cs: sequence of contacts]] *)
(* where optional fields are << >> or <<x>>.  An XML text stands for a     *)
(* tree of elements [n: name, as: set of [n, v], t: text, ks: children].   *)
(***************************************************************************)
EXTENDS Quoted

InitState(cfg) == [cfg |-> cfg, k |-> "none", v |-> << >>]
R(x) == [r |-> x]
Ctl == {"\t", "\r", "\n", "\f"}
Plain(x, m) == Len(x) <= m /\ ~Has(x, Ctl)
Opt(q, Ok(_)) == q = << >> \/ Ok(q[1])
Every(q, Ok(_)) == \A i \in DOMAIN q : Ok(q[i])
El(n, as, t, ks) == [n |-> n, as |-> as, t |-> t, ks |-> ks]
At(n, v) == [n |-> n, v |-> v]
AtOpt(n, q) == IF q = << >> THEN {} ELSE {At(n, q[1])}
ElOpt(n, q) == MapSeq(q, LAMBDA x : El(n, {}, x, << >>))
Attr(e, n) == LET m == {x \in e.as : x.n = n} IN IF m = {} THEN << >> ELSE <<(CHOOSE x \in m : TRUE).v>>
Kids(e, n) == Filter(e.ks, LAMBDA x : x.n = n)
Texts(e, n) == MapSeq(Kids(e, n), LAMBDA x : Trim(x.t))

\* ------------------------------------------------------------ presence
OkEnt(x) == x # "" /\ Plain(x, 512)
OkId(x) == x # "" /\ Plain(x, 128)
OkNote(x) == Plain(x, 512)
OkTime(x) == Plain(x, 64)
Basic == {"open", "closed"}
OkTuple(d) == OkId(d.id) /\ Opt(d.st, LAMBDA x : x \in Basic) /\ Opt(d.c, OkNote) /\ Every(d.ns, OkNote) /\ Len(d.ns) <= 10 /\ Opt(d.tm, OkTime)
TupleTree(d) == El("tuple", {At("id", d.id)}, "",
  (IF d.st = << >> THEN << >> ELSE <<El("status", {}, "", <<El("basic", {}, d.st[1], << >>)>>)>>) \o ElOpt("contact", d.c) \o ElOpt("note", d.ns) \o ElOpt("timestamp", d.tm))
PTree(v) == El("presence", {At("xmlns", "urn:ietf:params:xml:ns:pidf"), At("entity", v.e)}, "", MapSeq(v.ts, TupleTree) \o ElOpt("note", v.ns))
ReadTuple(e) ==
  LET st == Kids(e, "status")
      b == IF st = << >> THEN << >> ELSE MapSeq(Texts(st[1], "basic"), Low)
      id == Attr(e, "id")
      c == Texts(e, "contact")
      tm == Texts(e, "timestamp")
  IN IF id = << >> \/ Len(c) > 1 \/ Len(tm) > 1 THEN << >>
     ELSE LET d == [id |-> id[1], st |-> b, c |-> c, ns |-> Texts(e, "note"), tm |-> tm] IN IF OkTuple(d) THEN <<d>> ELSE << >>
PRead(t) ==
  LET e == Attr(t, "entity")
      ts == TLCEval(MapSeq(Kids(t, "tuple"), ReadTuple))
      ns == Texts(t, "note")
  IN IF e = << >> \/ (\E i \in DOMAIN ts : ts[i] = << >>) \/ Len(ts) > 50 \/ ~Every(ns, OkNote) \/ Len(ns) > 20 THEN << >>
     ELSE IF ~OkEnt(e[1]) THEN << >> ELSE <<[e |-> e[1], ns |-> ns, ts |-> MapSeq(ts, LAMBDA x : x[1])]>>
PClean(v) == [v EXCEPT !.ns = MapSeq(@, Trim), !.ts = MapSeq(@, LAMBDA d : [d EXCEPT !.c = MapSeq(@, Trim), !.ns = MapSeq(@, Trim), !.tm = MapSeq(@, Trim)])]

\* ------------------------------------------------------------ watcher information
Statuses == {"pending", "active", "waiting", "terminated"}
Events == {"subscribe", "approved", "deactivated", "probation", "rejected", "timeout", "giveup", "noresource"}
Schemed(x) == \E p \in {"sip:", "sips:", "tel:", "http:"} : Len(x) > Len(p) /\ Upto(x, Len(p)) = p
OkUri(x) == Plain(x, 512) /\ Schemed(x) /\ ~Has(x, {" ", "<", ">", "\""})
OkPack(x) == x # "" /\ Len(x) <= 64 /\ All(x, TokenChars)
OkDn(x) == Len(x) <= 256 /\ ~Has(x, Ctl \ {"\t"})
OkNum(x) == Num(x, U32)
OkWatcher(w) == OkId(w.id) /\ w.st \in Statuses /\ w.ev \in Events /\ Opt(w.uri, OkUri) /\ Opt(w.dn, OkDn)
OkList(d) == OkUri(d.r) /\ OkPack(d.p) /\ Every(d.ws, OkWatcher) /\ Len(d.ws) <= 1000
WTree(w) == El("watcher", {At("id", w.id), At("status", w.st), At("event", w.ev)} \cup AtOpt("display-name", w.dn) \cup AtOpt("expiration", w.ex) \cup AtOpt("duration-subscribed", w.du),
               IF w.uri = << >> THEN "" ELSE w.uri[1], << >>)
WiTree(v) == El("watcherinfo", {At("xmlns", "urn:ietf:params:xml:ns:watcherinfo"), At("version", v.ver), At("state", v.st)}, "",
  MapSeq(v.ls, LAMBDA d : El("watcher-list", {At("resource", d.r), At("package", d.p)}, "", MapSeq(d.ws, WTree))))
Number(q) == IF q # << >> /\ OkNum(q[1]) THEN <<Canon(q[1])>> ELSE << >>
ReadWatcher(e) ==
  LET a(n) == Attr(e, n) IN
  IF a("id") = << >> \/ a("status") = << >> \/ a("event") = << >> THEN << >>
  ELSE LET w == [id |-> a("id")[1], st |-> Low(a("status")[1]), ev |-> Low(a("event")[1]), dn |-> a("display-name"), ex |-> Number(a("expiration")), du |-> Number(a("duration-subscribed")),
                 uri |-> IF Trim(e.t) = "" THEN << >> ELSE <<Trim(e.t)>>] IN IF OkWatcher(w) THEN <<w>> ELSE << >>
ReadList(e) ==
  LET r == Attr(e, "resource") p == Attr(e, "package") ws == TLCEval(MapSeq(Kids(e, "watcher"), ReadWatcher)) IN
  IF r = << >> \/ p = << >> \/ \E i \in DOMAIN ws : ws[i] = << >> THEN << >>
  ELSE LET d == [r |-> r[1], p |-> p[1], ws |-> MapSeq(ws, LAMBDA x : x[1])] IN IF OkList(d) THEN <<d>> ELSE << >>
WiRead(t) ==
  LET n == Attr(t, "version") st == Attr(t, "state") ls == TLCEval(MapSeq(Kids(t, "watcher-list"), ReadList)) IN
  IF n = << >> \/ st = << >> \/ (\E i \in DOMAIN ls : ls[i] = << >>) \/ Len(ls) > 100 THEN << >>
  ELSE IF ~OkNum(n[1]) \/ Low(st[1]) \notin {"full", "partial"} THEN << >>
  ELSE <<[ver |-> Canon(n[1]), st |-> Low(st[1]), ls |-> MapSeq(ls, LAMBDA x : x[1])]>>

\* ------------------------------------------------------------ registration information
RStates == {"init", "active", "terminated"}
CEvents == {"registered", "created", "refreshed", "shortened", "expired", "deactivated", "rejected", "unregistered", "probation"}
QValues == {"0", "0.25", "0.5", "0.8", "1"}      \* of those that are tried
OkContact(c) == OkId(c.id) /\ OkEnt(c.uri) /\ c.st \in {"active", "terminated"} /\ Opt(c.ev, LAMBDA x : x \in CEvents) /\ Opt(c.dn, LAMBDA x : Plain(x, 256))
  /\ Opt(c.ci, LAMBDA x : x # "" /\ Plain(x, 256)) /\ Opt(c.q, LAMBDA x : x \in QValues)
OkReg(d) == OkEnt(d.a) /\ OkId(d.id) /\ d.st \in RStates /\ Every(d.cs, OkContact) /\ Len(d.cs) <= 50
CTree(c) == El("contact", {At("id", c.id), At("state", c.st)} \cup AtOpt("event", c.ev) \cup AtOpt("expires", c.ex) \cup AtOpt("retry-after", c.ra) \cup AtOpt("duration-registered", c.du) \cup AtOpt("q", c.q)
  \cup AtOpt("callid", c.ci) \cup AtOpt("cseq", c.sq), "", <<El("uri", {}, c.uri, << >>)>> \o ElOpt("display-name", c.dn))
RTree(v) == El("reginfo", {At("xmlns", "urn:ietf:params:xml:ns:reginfo"), At("version", v.ver), At("state", v.st)}, "",
  MapSeq(v.rs, LAMBDA d : El("registration", {At("aor", d.a), At("id", d.id), At("state", d.st)}, "", MapSeq(d.cs, CTree))))

\* ------------------------------------------------------------ operations
Tree(k, v) == CASE k = "pidf" -> PTree(v) [] k = "winfo" -> WiTree(v) [] k = "reg" -> RTree(v)
RECURSIVE Tidy(_)                 \* a tree as a reader gets it: texts without outer blanks
Tidy(e) == El(e.n, e.as, Trim(e.t), MapSeq(e.ks, Tidy))
ReadTree(k, t) == CASE k = "pidf" -> IF t.n = "presence" THEN PRead(t) ELSE << >> [] k = "winfo" -> IF t.n = "watcherinfo" THEN WiRead(t) ELSE << >>
Clean(k, v) == IF k = "pidf" THEN PClean(v) ELSE v
Shown(k, v) == CASE k = "pidf" -> [r |-> k, e |-> v.e, ns |-> v.ns, ts |-> v.ts, bs |-> IF v.ts = << >> THEN << >> ELSE v.ts[1].st]
  [] k = "winfo" -> [r |-> k, ver |-> v.ver, st |-> v.st, ls |-> v.ls]
  [] k = "reg" -> [r |-> k, ver |-> v.ver, st |-> v.st, rs |-> v.rs]
New(k, d) == CASE k = "pidf" -> IF OkEnt(d.e) THEN <<[e |-> d.e, ns |-> << >>, ts |-> << >>]>> ELSE << >>
  [] k = "winfo" -> IF Low(d.st) \in {"full", "partial"} THEN <<[ver |-> d.ver, st |-> Low(d.st), ls |-> << >>]>> ELSE << >>
  [] k = "reg" -> <<[ver |-> d.ver, st |-> d.st, rs |-> << >>]>>
Copies(x, n) == [i \in 1..n |-> x]
(* the element with its last inner one n more times *)
More(k, d, n) == IF n = 0 THEN d ELSE IF k = "winfo" THEN [d EXCEPT !.ws = @ \o Copies(@[Len(@)], n)] ELSE [d EXCEPT !.cs = @ \o Copies(@[Len(@)], n)]
OkEl(k, d) == CASE k = "pidf" -> OkTuple(d) [] k = "winfo" -> OkList(d) [] k = "reg" -> OkReg(d)
(* q with n times x, up to m; whether it all fitted *)
Grown(q, x, n, m) == q \o Copies(x, IF Len(q) + n <= m THEN n ELSE m - Len(q))
Added(s, d, n) ==
  LET v == s.v[1]
      m == CASE s.k = "pidf" -> 50 [] OTHER -> 100
      q == CASE s.k = "pidf" -> v.ts [] s.k = "winfo" -> v.ls [] s.k = "reg" -> v.rs
      g == Grown(q, d, n, m)
      w == CASE s.k = "pidf" -> [v EXCEPT !.ts = g] [] s.k = "winfo" -> [v EXCEPT !.ls = g] [] s.k = "reg" -> [v EXCEPT !.rs = g]
  IN {[s |-> [s EXCEPT !.v = <<w>>], obs |-> R(IF Len(q) + n <= m THEN "ok" ELSE "err")]}
Keep(s, o) == {[s |-> s, obs |-> o]}
Set(s, k, v) == IF v = << >> THEN Keep(s, R("err")) ELSE {[s |-> [s EXCEPT !.k = k, !.v = v], obs |-> R("ok")]}
RECURSIVE Sets(_)
Sets(e) == El(e.n, Range(e.as), e.t, MapSeq(e.ks, Sets))
Post(s, a) ==
  CASE a.op = "new" -> Set(s, a.k, New(a.k, a.d))
    [] a.op = "read" -> Set(s, a.k, IF a.bad THEN << >> ELSE TLCEval(ReadTree(a.k, TLCEval(Sets(a.t)))))
    [] a.op = "junk" -> {[s |-> s, obs |-> R(x)] : x \in {"read", "refused"}}
    [] s.v = << >> -> Keep(s, R("none"))
    [] a.op = "note" /\ s.k = "pidf" -> IF OkNote(a.x) /\ Len(s.v[1].ns) < 20 THEN {[s |-> [s EXCEPT !.v[1].ns = Append(@, a.x)], obs |-> R("ok")]} ELSE Keep(s, R("err"))
    [] a.op = "add" -> IF a.k # s.k THEN Keep(s, R("none")) ELSE LET d == More(s.k, a.d, a.more) IN IF OkEl(s.k, d) THEN Added(s, d, a.rep) ELSE Keep(s, R("err"))
    [] a.op = "show" -> Keep(s, Shown(s.k, s.v[1]))
    [] a.op = "again" -> LET c == Clean(s.k, s.v[1]) IN Keep(s, Shown(s.k, c) @@ [t |-> Tidy(Tree(s.k, s.v[1]))])
    [] OTHER -> Keep(s, R("none"))
Norm(e) == IF "t" \in DOMAIN e.obs THEN [e.obs EXCEPT !.t = Sets(@)] ELSE e.obs
StateOK(s) ==
  /\ (s.v = << >>) = (s.k = "none")
  /\ s.k = "pidf" => Len(s.v[1].ts) <= 50 /\ Len(s.v[1].ns) <= 20 /\ OkEnt(s.v[1].e) /\ Every(s.v[1].ts, OkTuple)
  /\ s.k = "winfo" => Len(s.v[1].ls) <= 100 /\ Every(s.v[1].ls, OkList)
  /\ s.k = "reg" => Len(s.v[1].rs) <= 100 /\ Every(s.v[1].rs, OkReg)
=============================================================================
