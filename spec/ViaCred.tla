------------------------------ MODULE ViaCred -------------------------------
(***************************************************************************)
(* Via headers (RFC 3261 20.42) and credentials (RFC 7235, 7616): built    *)
(* step by step or read from text, written and read again.                 *)
(* via: << >> or <<[t, h, ps]>> (transport, sent-by, parameters);          *)
(* cred: << >> or <<[m, ps]>> (scheme, parameters).  A parameter is        *)
(* [n, v]; in a Via v = << >> or <<text>>, in credentials v is a text.     *)
(***************************************************************************)
EXTENDS Text

InitState(cfg) == [cfg |-> cfg, via |-> << >>, cred |-> << >>]
R(x) == [r |-> x]
Ctl == {"\r", "\n", "\f"}
Named(ps, n) == {p \in ps : p.n = Low(n)}
Put(ps, n, v) == (ps \ Named(ps, n)) \cup {[n |-> Low(n), v |-> v]}
Blanks == {" ", "\t"}
Bare(x) == TrimOf(x, Blanks)

\* ============================================================ Via
ViaMax == [t |-> 32, h |-> 256, n |-> 64, v |-> 256, ps |-> 20]
OkTransport(x) == IsToken(x) /\ Len(x) <= ViaMax.t
OkPort(x) == x # "" /\ All(x, Digits) /\ AtMost(x, U16) /\ Canon(x) # "0"
(* host, host:port, [address] or [address]:port *)
OkSentBy(x) ==
  Len(x) <= ViaMax.h /\ x # "" /\
  IF Ch(x, 1) = "["
  THEN LET j == To(x, {"]"}, 1)
           y == From(x, j + 1)
       IN j > 2 /\ j <= Len(x) /\ All(SubSeq(x, 2, j - 1), Hex \cup {":", "."})
          /\ (y = "" \/ (Ch(y, 1) = ":" /\ OkPort(From(y, 2))))
  ELSE LET j == To(x, {":"}, 1) IN
       j > 1 /\ All(Upto(x, j - 1), AlNum \cup {".", "-", "_"}) /\ (j > Len(x) \/ OkPort(From(x, j + 1)))
OkName(x) == IsToken(x) /\ Len(x) <= ViaMax.n
(* A value is kept as written: separators only inside closed quotes. *)
RECURSIVE Closed(_, _, _)
Closed(x, i, quoted) ==
  IF i > Len(x) THEN i = Len(x) + 1 /\ ~quoted
  ELSE LET c == Ch(x, i) IN
       IF quoted /\ c = "\\" THEN Closed(x, i + 2, TRUE)
       ELSE IF c = "\"" THEN Closed(x, i + 1, ~quoted)
       ELSE (quoted \/ c \notin {";", ","}) /\ Closed(x, i + 1, quoted)
OkVal(x) == Len(x) <= ViaMax.v /\ ~Has(x, Ctl \cup {"\t"}) /\ Closed(x, 1, FALSE) /\ Bare(x) = x
ViaPut(p, n, v) ==        \* p: << >> or <<parameters>>; a name is given once
  IF p = << >> \/ ~OkName(n) \/ (v # << >> /\ ~OkVal(v[1])) THEN << >>
  ELSE IF Named(p[1], n) # {} \/ Cardinality(p[1]) >= ViaMax.ps THEN << >> ELSE <<Put(p[1], n, v)>>
RECURSIVE ViaPs(_, _)
ViaPs(p, q) ==
  IF q = << >> \/ p = << >> THEN p
  ELSE LET x == Head(q)
           j == To(x, {"="}, 1)
       IN ViaPs(TLCEval(ViaPut(p, Bare(Upto(x, j - 1)), IF j > Len(x) THEN << >> ELSE <<Bare(From(x, j + 1))>>)), Tail(q))
Pieces(x, c) == LET q == TLCEval(MapSeq(SplitQ(x, c), Bare)) IN Filter(q, LAMBDA y : y # "")
ReadVia(x) ==
  LET q == SplitQ(x, ";")
      w == WordsOf(q[1], Blanks)
      t == IF w = << >> THEN << >> ELSE Split(w[1], "/")
  IN IF Has(x, Ctl) \/ Len(w) # 2 \/ Len(t) # 3 THEN << >>
     ELSE IF Low(t[1]) # "sip" \/ t[2] # "2.0" \/ ~OkTransport(t[3]) \/ ~OkSentBy(w[2]) THEN << >>
     ELSE LET y == TLCEval(MapSeq(Tail(q), Bare))
              ps == ViaPs(<<{}>>, Filter(y, LAMBDA z : z # ""))
          IN IF ps = << >> THEN << >> ELSE <<[t |-> t[3], h |-> w[2], ps |-> ps[1]]>>
(* more pieces after the twentieth parameter, all empty, may be refused too *)
Crowded(x) == LET v == ReadVia(x) IN v # << >> /\ Cardinality(v[1].ps) = ViaMax.ps /\ Bare(SplitQ(x, ";")[Len(SplitQ(x, ";"))]) = ""
RECURSIVE WritePs(_)
WritePs(ps) == IF ps = {} THEN "" ELSE LET p == CHOOSE p \in ps : TRUE IN
  ";" \o p.n \o (IF p.v = << >> THEN "" ELSE "=" \o p.v[1]) \o WritePs(ps \ {p})
WriteVia(v) == "SIP/2.0/" \o v.t \o " " \o v.h \o WritePs(v.ps)

\* ============================================================ credentials
CredMax == [m |-> 64, n |-> 64, v |-> 256, ps |-> 30]
TChars == AlNum \cup Chars("!#$%&'*+-.^_`|~")                       \* RFC 7230 tchar
IsTok(x) == x # "" /\ All(x, TChars)
OkScheme(x) == IsTok(x) /\ Len(x) <= CredMax.m
OkCName(x) == IsTok(x) /\ Len(x) <= CredMax.n
OkCVal(x) == Len(x) <= CredMax.v /\ ~Has(x, Ctl)
CanPut(c, n, v, again) ==
  OkCName(n) /\ OkCVal(v) /\ IF Named(c.ps, n) # {} THEN again ELSE Cardinality(c.ps) < CredMax.ps
(* a value is the text between its quotes (escapes stay as they are) or what is written *)
RECURSIVE Escape(_), CredPs(_, _)
Escape(x) == IF x = "" THEN "" ELSE (IF Ch(x, 1) \in {"\"", "\\"} THEN "\\" ELSE "") \o Ch(x, 1) \o Escape(From(x, 2))
Quoted(x) == Len(x) >= 2 /\ Ch(x, 1) = "\"" /\ ToQ(From(x, 2), {"\""}, 1, TRUE) = Len(x)
CVal(x) == IF Quoted(x) THEN SubSeq(x, 2, Len(x) - 1) ELSE x
NameOf(x) == Bare(Upto(x, To(x, {"="}, 1) - 1))
RawOf(x) == Bare(From(x, To(x, {"="}, 1) + 1))
CredPs(c, q) ==           \* c: << >> or <<credentials>>
  IF q = << >> \/ c = << >> THEN c
  ELSE LET x == Head(q) n == NameOf(x) v == CVal(RawOf(x)) IN
       IF To(x, {"="}, 1) > Len(x) \/ ~CanPut(c[1], n, v, FALSE) THEN << >>
       ELSE CredPs(<<[c[1] EXCEPT !.ps = Put(@, n, v)]>>, Tail(q))
(* quotes are closed *)
RECURSIVE Shut(_, _, _)
Shut(x, i, quoted) ==
  IF i > Len(x) THEN i = Len(x) + 1 /\ ~quoted
  ELSE LET c == Ch(x, i) IN
       IF quoted /\ c = "\\" THEN Shut(x, i + 2, TRUE) ELSE Shut(x, i + 1, IF c = "\"" THEN ~quoted ELSE quoted)
CredRest(x) == LET y == Bare(x) j == To(y, {" "}, 1) IN From(y, j + 1)
ReadCred(x) ==
  LET y == Bare(x)
      m == Upto(y, To(y, {" "}, 1) - 1)
  IN IF ~OkScheme(m) \/ ~Shut(CredRest(x), 1, FALSE) THEN << >> ELSE CredPs(<<[m |-> m, ps |-> {}]>>, Pieces(CredRest(x), ","))
(* which parameters RFC 7616 3.4 wants quoted, and which not *)
MustQuote == {"username", "realm", "nonce", "uri", "response", "opaque", "cnonce"}
MustNot == {"algorithm", "qop", "nc", "userhash", "stale"}
QuotesOK(x, c) == Low(c.m) = "digest" =>
  LET q == TLCEval(Pieces(CredRest(x), ",")) IN
  \A i \in DOMAIN q : LET y == q[i] n == Low(NameOf(y)) IN
    (n \in MustQuote => Quoted(RawOf(y))) /\ (n \in MustNot /\ IsTok(CVal(RawOf(y))) => ~Quoted(RawOf(y)))
(* written and read again: a quoted value keeps its escapes *)
Held(c) == [c EXCEPT !.ps = {[p EXCEPT !.v = Escape(@)] : p \in c.ps}]
Fits(c) == \A p \in c.ps : Len(Escape(p.v)) <= CredMax.v
RECURSIVE Params(_, _)
Params(c, ps) == IF ps = {} THEN "" ELSE LET p == CHOOSE p \in ps : TRUE
                                             q == (Low(c.m) = "digest" /\ p.n \in MustQuote) \/ ~IsTok(p.v)
                                         IN (IF ps = c.ps THEN " " ELSE ", ") \o p.n \o "=" \o (IF q THEN "\"" \o Escape(p.v) \o "\"" ELSE p.v) \o Params(c, ps \ {p})
WriteCred(c) == c.m \o Params(c, c.ps)

\* ============================================================ steps
ViaView(v) == [r |-> "via", t |-> v.t, h |-> v.h, ps |-> v.ps]
CredView(c) == [r |-> "cred", m |-> c.m, ps |-> c.ps]
Try(s, ok, t) == IF ok THEN {[s |-> t, obs |-> R("ok")]} ELSE {[s |-> s, obs |-> R("err")]}
RECURSIVE Raw(_, _)                \* parameters given at once: c << >> when there is one that cannot be
Raw(c, q) == IF c = << >> \/ q = << >> THEN c
             ELSE Raw(IF CanPut(c[1], Head(q).n, Head(q).v, FALSE) THEN <<[c[1] EXCEPT !.ps = Put(@, Head(q).n, Head(q).v)]>> ELSE << >>, Tail(q))
Post(s, a) ==
  CASE a.op = "via" -> Try(s, OkTransport(a.t) /\ OkSentBy(a.h), [s EXCEPT !.via = <<[t |-> a.t, h |-> a.h, ps |-> {}]>>])
    [] a.op = "vread" ->
         (LET v == ReadVia(a.x) IN Try(s, v # << >>, [s EXCEPT !.via = v]) \cup (IF v # << >> /\ Crowded(a.x) THEN {[s |-> s, obs |-> R("err")]} ELSE {}))
    [] a.op = "cred" ->
         (LET c == IF OkScheme(a.m) THEN Raw(<<[m |-> a.m, ps |-> {}]>>, a.ps) ELSE << >> IN Try(s, c # << >>, [s EXCEPT !.cred = c]))
    [] a.op = "cread" -> (LET c == ReadCred(a.x) IN Try(s, c # << >>, [s EXCEPT !.cred = c]))
    [] (s.via = << >> /\ a.op \in {"vadd", "vset", "vget", "vsee", "vagain"}) \/ (s.cred = << >> /\ a.op \in {"cadd", "cset", "cget", "csee", "cagain"}) ->
         {[s |-> s, obs |-> R("none")]}
    [] a.op \in {"vadd", "vset"} ->
         (LET v == s.via[1]
              p == ViaPut(<<IF a.op = "vset" THEN v.ps \ Named(v.ps, a.n) ELSE v.ps>>, a.n, a.v)
          IN Try(s, p # << >>, [s EXCEPT !.via = <<[v EXCEPT !.ps = p[1]]>>]))
    [] a.op = "vget" -> {[s |-> s, obs |-> [r |-> "got", v |-> {p.v : p \in Named(s.via[1].ps, a.n)}]]}
    [] a.op = "vsee" ->
         (LET v == s.via[1] IN
          IF "obs" \in DOMAIN a /\ a.obs.r = "via" /\ ReadVia(a.obs.x) = <<v>>
          THEN {[s |-> s, obs |-> ViaView(v) @@ [x |-> a.obs.x]]}
          ELSE {[s |-> s, obs |-> ViaView(v) @@ [x |-> WriteVia(v)]]})
    [] a.op = "vagain" -> {[s |-> s, obs |-> R("ok")]}                  \* what is written is read in its place
    [] a.op \in {"cadd", "cset"} ->
         (LET c == s.cred[1] IN Try(s, CanPut(c, a.n, a.v, a.op = "cset"), [s EXCEPT !.cred = <<[c EXCEPT !.ps = Put(@, a.n, a.v)]>>]))
    [] a.op = "cget" -> {[s |-> s, obs |-> [r |-> "got", v |-> {p.v : p \in Named(s.cred[1].ps, a.n)}]]}
    [] a.op = "csee" ->
         (LET c == s.cred[1] IN
          IF "obs" \in DOMAIN a /\ a.obs.r = "cred" /\ (Fits(c) => ReadCred(a.obs.x) = <<Held(c)>>) /\ QuotesOK(a.obs.x, c)
          THEN {[s |-> s, obs |-> CredView(c) @@ [x |-> a.obs.x]]}
          ELSE {[s |-> s, obs |-> CredView(c) @@ [x |-> WriteCred(c)]]})
    [] a.op = "cagain" -> (LET c == s.cred[1] IN Try(s, Fits(c), [s EXCEPT !.cred = <<Held(c)>>]))

Norm(e) == LET o == e.obs IN
  CASE o.r = "got" -> [o EXCEPT !.v = Range(@)]
    [] o.r \in {"via", "cred"} -> [o EXCEPT !.ps = Range(@)]
    [] OTHER -> o
OnceEach(ps) == \A p, q \in ps : p.n = q.n => p = q
StateOK(s) ==
  /\ s.via # << >> => LET v == s.via[1] IN OkTransport(v.t) /\ OkSentBy(v.h) /\ Cardinality(v.ps) <= ViaMax.ps /\ OnceEach(v.ps)
                        /\ \A p \in v.ps : OkName(p.n) /\ p.n = Low(p.n) /\ (p.v # << >> => OkVal(p.v[1]))
  /\ s.cred # << >> => LET c == s.cred[1] IN OkScheme(c.m) /\ Cardinality(c.ps) <= CredMax.ps /\ OnceEach(c.ps)
                        /\ \A p \in c.ps : OkCName(p.n) /\ p.n = Low(p.n) /\ OkCVal(p.v)
=============================================================================
