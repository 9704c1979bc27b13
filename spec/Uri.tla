-------------------------------- MODULE Uri --------------------------------
(***************************************************************************)
(* SIP, SIPS, tel and absolute URIs (sip-core): a lexical specification of *)
(* what a URI text means, and of the operations that build and change one. *)
(*                                                                         *)
(* A parsed URI is [k, sips, user, host, port, params, hdrs, num, glob,    *)
(* ctx, abs]: k is "sip", "tel" or "abs"; user and ctx are << >> or <<x>>; *)
(* port is "" or a digit string; params is a set of [n, v] (v << >> or     *)
(* <<x>>), hdrs a set of [n, v].  State: the current URI, << >> if none.   *)
(***************************************************************************)
EXTENDS Text

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Graphic == Chars(Printable) \cup {"é"}
Open == {" ", "<", ">", "\""}                          \* would end the URI in a message
UriChars == Graphic \ Open
Uric(x) == All(x, UriChars)

\* ------------------------------------------------------------------ escapes
HexVal == [c \in Hex |-> IF c \in Digits THEN DigitVal[c]
           ELSE 9 + (CHOOSE i \in 1..6 : Ch("abcdef", i) = (IF c \in Upper THEN LowOf[c] ELSE c))]
Byte(n) == IF n < 32 \/ n = 127 THEN "\n" ELSE Ch(Printable, n - 31)
Esc(x) == Len(x) >= 3 /\ Ch(x, 1) = "%" /\ Ch(x, 2) \in Hex /\ Ch(x, 3) \in Hex
EscVal(x) == 16 * HexVal[Ch(x, 2)] + HexVal[Ch(x, 3)]
Broken == "\n"                                          \* stands for what no component may contain
RECURSIVE Decode(_)
Decode(x) ==
  IF x = "" THEN ""
  ELSE IF ~Esc(x) THEN Ch(x, 1) \o Decode(From(x, 2))
  ELSE IF EscVal(x) < 128 THEN Byte(EscVal(x)) \o Decode(From(x, 4))
  ELSE IF EscVal(x) = 195 /\ Esc(From(x, 4)) /\ EscVal(From(x, 4)) = 169 THEN "é" \o Decode(From(x, 7))
  ELSE Broken

\* ------------------------------------------------------------------ hosts
H16(x) == Len(x) \in 1..4 /\ All(x, Hex)
Octet(x) == Num(x, "255") /\ Canon(x) = x
V4(x) == LET p == Split(x, ".") IN Len(p) = 4 /\ \A i \in 1..4 : Octet(p[i])
Groups(x) == IF x = "" THEN << >> ELSE Split(x, ":")
Fine(g, v4) == \A i \in DOMAIN g : H16(g[i]) \/ (v4 /\ i = Len(g) /\ V4(g[i]))
Count(g) == Len(g) + (IF g # << >> /\ V4(g[Len(g)]) THEN 1 ELSE 0)
Gap(x) == {i \in 1..(Len(x) - 1) : SubSeq(x, i, i + 1) = "::"}
V6(x) ==
  IF Gap(x) = {} THEN Fine(Groups(x), TRUE) /\ Count(Groups(x)) = 8
  ELSE LET i == CHOOSE i \in Gap(x) : \A j \in Gap(x) : i <= j
           h == Groups(Upto(x, i - 1))
           t == Groups(From(x, i + 2)) IN
       Fine(h, FALSE) /\ Fine(t, TRUE) /\ Count(h) + Count(t) <= 7
HostName(x) == All(x, AlNum \cup {".", "-", "_"})
HostOK(x) == x # "" /\ Len(x) <= 256 /\ (IF Has(x, {":"}) THEN V6(x) ELSE HostName(x))
Port(x) == Num(x, U16) /\ Canon(x) # "0"
(* host[:port] -> [ok, h, p] *)
HostPort(x) ==
  LET no == [ok |-> FALSE, h |-> "", p |-> ""]
      e == To(x, {"]"}, 1)
      c == To(x, {":"}, 1) IN
  IF x = "" THEN no
  ELSE IF Ch(x, 1) = "["
  THEN LET h == Low(Decode(SubSeq(x, 2, e - 1)))
           r == From(x, e + 1) IN
       IF e > Len(x) \/ ~V6(h) THEN no
       ELSE IF r = "" THEN [ok |-> TRUE, h |-> h, p |-> ""]
       ELSE IF Ch(r, 1) = ":" /\ Port(From(r, 2)) THEN [ok |-> TRUE, h |-> h, p |-> Canon(From(r, 2))] ELSE no
  ELSE LET h == Low(Decode(Upto(x, c - 1))) IN
       IF ~HostOK(h) THEN no
       ELSE IF c > Len(x) THEN [ok |-> TRUE, h |-> h, p |-> ""]
       ELSE IF Port(From(x, c + 1)) THEN [ok |-> TRUE, h |-> h, p |-> Canon(From(x, c + 1))] ELSE no

\* ------------------------------------------------------------------ parts of a SIP URI
UserOK(u) == u # "" /\ Len(u) <= 256 /\ All(u, Graphic \ Chars("@;?/#[]"))
NameOK(n) == IsToken(n) /\ Len(n) <= 64
ValueOK(v) == Len(v) <= 256 /\ All(v, UriChars \ Chars(";?@"))
HValueOK(v) == Len(v) <= 512 /\ All(v, UriChars)
(* the last value of a repeated name counts *)
LastOf(q) == {q[i] : i \in {i \in DOMAIN q : \A j \in DOMAIN q : j > i => q[j].n # q[i].n}}
Pair(x, c) == LET j == To(x, {c}, 1) IN
  [n |-> Low(Upto(x, j - 1)), v |-> IF j > Len(x) THEN << >> ELSE <<From(x, j + 1)>>]
NonEmpty(x) == x # ""
Params(x) == [i \in DOMAIN Filter(Split(x, ";"), NonEmpty) |-> Pair(Filter(Split(x, ";"), NonEmpty)[i], "=")]
ParamOK(p) == NameOK(p.n) /\ (p.v = << >> \/ ValueOK(p.v[1]))
HasValue(p) == p.v # << >>
Hdrs(x) == LET q == Split(x, "&") IN Filter([i \in DOMAIN q |-> Pair(q[i], "=")], HasValue)
HdrOK(p) == NameOK(p.n) /\ HValueOK(p.v[1])

Blank0 == [k |-> "", sips |-> FALSE, user |-> << >>, host |-> "", port |-> "", params |-> {}, hdrs |-> {},
           num |-> "", glob |-> FALSE, ctx |-> << >>, abs |-> ""]
Scheme(x) == LET j == To(x, {":"}, 1) IN IF j > Len(x) THEN "" ELSE Low(Upto(x, j - 1))
Rest(x) == From(x, To(x, {":"}, 1) + 1)

Sip(x) ==
  LET r == Rest(x)
      at == To(r, {"@"}, 1)
      user == IF at > Len(r) THEN << >> ELSE <<Decode(Upto(r, at - 1))>>
      hp == IF at > Len(r) THEN r ELSE From(r, at + 1)
      q == To(hp, {"?"}, 1)
      addr == Upto(hp, q - 1)
      sc == To(addr, {";"}, 1)
      h == HostPort(Upto(addr, sc - 1))
      ps == Params(From(addr, sc + 1))
      hs == Hdrs(From(hp, q + 1)) IN
  IF /\ Scheme(x) \in {"sip", "sips"} /\ Uric(x) /\ Len(x) <= 2048
     /\ (user = << >> \/ UserOK(user[1])) /\ h.ok
     /\ \A i \in DOMAIN ps : ParamOK(ps[i])
     /\ \A i \in DOMAIN hs : HdrOK(hs[i])
     /\ Cardinality(LastOf(ps)) <= 50 /\ Cardinality(LastOf(hs)) <= 50
  THEN <<[Blank0 EXCEPT !.k = "sip", !.sips = Scheme(x) = "sips", !.user = user, !.host = h.h, !.port = h.p,
                        !.params = LastOf(ps), !.hdrs = {[n |-> p.n, v |-> p.v[1]] : p \in LastOf(hs)}]>>
  ELSE None

\* ------------------------------------------------------------------ tel URIs
Visual == Chars("-.()")
GlobalNum(n) == n # "" /\ Ch(n, 1) = "+" /\ All(From(n, 2), Digits \cup Visual) /\ Has(n, Digits)
LocalNum(n) == All(n, Digits \cup Visual \cup Chars("*#ABCDabcd")) /\ Has(n, Digits)
NumberOK(n) == Len(n) <= 64 /\ (GlobalNum(n) \/ LocalNum(n))
RECURSIVE Strip(_)
Strip(n) == IF n = "" THEN "" ELSE (IF Ch(n, 1) \in Visual THEN "" ELSE Ch(n, 1)) \o Strip(From(n, 2))
Norm1(n) == IF GlobalNum(n) THEN Strip(n) ELSE n
Label(l) == Len(l) \in 1..63 /\ All(l, AlNum \cup {"-"}) /\ Ch(l, 1) # "-" /\ Ch(l, Len(l)) # "-"
CtxOK(c) ==
  /\ c # "" /\ Len(c) <= 256
  /\ IF Ch(c, 1) = "+" THEN All(From(c, 2), Digits \cup Visual \cup Chars("ABCD*#")) /\ Has(c, Digits)
     ELSE LET p == Split(c, ".") IN \A i \in DOMAIN p : Label(p[i])
TNameOK(n) == Len(n) \in 1..32 /\ All(n, UriChars \ Chars(";="))
TValueOK(v) == Len(v) <= 128 /\ All(v, UriChars \ {";"})
TPair(x) == LET j == To(x, {"="}, 1) IN
  [n |-> Upto(x, j - 1), v |-> IF j > Len(x) THEN << >> ELSE <<From(x, j + 1)>>]
TParams(x) == LET q == Filter(Split(x, ";"), NonEmpty) IN [i \in DOMAIN q |-> TPair(q[i])]
IsCtx(p) == Low(p.n) = "phone-context" /\ p.v # << >>
(* Spaces are tolerated as separators of the number, but never written. *)
RECURSIVE Despace(_)
Despace(n) == IF n = "" THEN "" ELSE (IF Ch(n, 1) = " " THEN "" ELSE Ch(n, 1)) \o Despace(From(n, 2))
TelText(x) == LET sc == To(x, {";"}, 1) IN Despace(Upto(x, sc - 1)) \o From(x, sc)
Tel(x0) ==
  LET x == IF Scheme(x0) = "tel" THEN TelText(x0) ELSE x0
      r == Rest(x)
      sc == To(r, {";"}, 1)
      n == Upto(r, sc - 1)
      ps == TParams(From(r, sc + 1))
      cs == Filter(ps, IsCtx) IN
  IF /\ Scheme(x) = "tel" /\ Uric(x) /\ NumberOK(n)
     /\ \A i \in DOMAIN ps : TNameOK(ps[i].n) /\ (ps[i].v = << >> \/ TValueOK(ps[i].v[1]))
     /\ \A i \in DOMAIN cs : CtxOK(cs[i].v[1])
     /\ Len(cs) = (IF GlobalNum(n) THEN 0 ELSE 1) /\ Cardinality(LastOf(ps)) <= 20
  THEN <<[Blank0 EXCEPT !.k = "tel", !.num = Norm1(n), !.glob = GlobalNum(n),
                        !.ctx = IF cs = << >> THEN << >> ELSE cs[Len(cs)].v, !.params = LastOf(ps)]>>
  ELSE None

Abs(x) ==
  LET j == To(x, {":"}, 1) IN
  IF /\ Uric(x) /\ Len(x) <= 2048 /\ j > 1 /\ j < Len(x)
     /\ Ch(x, 1) \in Alpha /\ All(Upto(x, j - 1), AlNum \cup Chars("+-."))
  THEN <<[Blank0 EXCEPT !.k = "abs", !.abs = x]>> ELSE None

TextOf(x) == IF Scheme(x) = "tel" THEN TelText(x) ELSE x
Parse(x) == CASE Scheme(x) \in {"sip", "sips"} -> Sip(x) [] Scheme(x) = "tel" -> Tel(x) [] OTHER -> Abs(x)

\* ------------------------------------------------------------------ a text for every URI
Plain == AlNum \cup Chars("-_.!~*'()&=+$,:")
HexD == "0123456789ABCDEF"
Code(c) == (CHOOSE i \in 1..Len(Printable) : Ch(Printable, i) = c) + 31
EscOf(c) == IF c = "é" THEN "%C3%A9" ELSE "%" \o Ch(HexD, (Code(c) \div 16) + 1) \o Ch(HexD, (Code(c) % 16) + 1)
RECURSIVE Encode(_), Sorted(_)
Encode(x) == IF x = "" THEN "" ELSE (IF Ch(x, 1) \in Plain THEN Ch(x, 1) ELSE EscOf(Ch(x, 1))) \o Encode(From(x, 2))
Sorted(S) == IF S = {} THEN << >> ELSE LET p == CHOOSE p \in S : TRUE IN <<p>> \o Sorted(S \ {p})
PText(p) == ";" \o p.n \o (IF p.v = << >> THEN "" ELSE "=" \o p.v[1])
Write(u) ==
  LET ps == Join(MapSeq(Sorted(u.params), PText), "")
      hs == Sorted(u.hdrs) IN
  CASE u.k = "sip" -> (IF u.sips THEN "sips:" ELSE "sip:") \o (IF u.user = << >> THEN "" ELSE Encode(u.user[1]) \o "@")
         \o (IF Has(u.host, {":"}) THEN "[" \o u.host \o "]" ELSE u.host)
         \o (IF u.port = "" THEN "" ELSE ":" \o u.port) \o ps
         \o (IF hs = << >> THEN "" ELSE "?" \o Join([i \in DOMAIN hs |-> hs[i].n \o "=" \o hs[i].v], "&"))
    [] u.k = "tel" -> "tel:" \o u.num \o ps
    [] u.k = "abs" -> u.abs

\* ------------------------------------------------------------------ operations
InitState(cfg) == [cfg |-> cfg, u |-> None]
Put(S, n, v) == {p \in S : p.n # n} \cup {[n |-> n, v |-> v]}
Holds(S, n) == \E p \in S : p.n = n
(* The URI after change c, or << >> when the change is refused. *)
Change(u, c) ==
  CASE c.f = "host" -> IF u.k = "sip" /\ HostOK(Low(c.x)) THEN <<[u EXCEPT !.host = Low(c.x)]>> ELSE None
    [] c.f = "user" -> IF UserOK(c.x) THEN <<[u EXCEPT !.user = <<c.x>>]>> ELSE None
    [] c.f = "port" -> IF c.x = "0" THEN None ELSE <<[u EXCEPT !.port = c.x]>>
    [] c.f = "noport" -> <<[u EXCEPT !.port = ""]>>
    [] c.f = "nohdrs" -> <<[u EXCEPT !.hdrs = {}]>>
    [] c.f = "param" -> IF NameOK(c.x) /\ (c.v = << >> \/ ValueOK(c.v[1])) /\ Cardinality(u.params) < 50
                        THEN <<[u EXCEPT !.params = Put(@, Low(c.x), c.v)]>> ELSE None
    [] c.f = "tparam" ->
         IF Low(c.x) = "phone-context"
         THEN IF c.v = << >> \/ u.glob \/ ~CtxOK(c.v[1]) THEN None
              ELSE <<[u EXCEPT !.ctx = c.v, !.params = {p \in @ : Low(p.n) # "phone-context"} \cup {[n |-> c.x, v |-> c.v]}]>>
         ELSE IF TNameOK(c.x) /\ (c.v = << >> \/ TValueOK(c.v[1])) /\ (Holds(u.params, c.x) \/ Cardinality(u.params) < 20)
              THEN <<[u EXCEPT !.params = Put(@, c.x, c.v)]>> ELSE None
    [] c.f = "ctx" -> IF u.glob \/ ~CtxOK(c.x) THEN None
              ELSE <<[u EXCEPT !.ctx = <<c.x>>, !.params = {p \in @ : Low(p.n) # "phone-context"} \cup {[n |-> "phone-context", v |-> <<c.x>>]}]>>
For(u, f) == CASE f \in {"tparam", "ctx"} -> u.k = "tel" [] f = "nohdrs" -> TRUE [] OTHER -> u.k = "sip"

Seen(r, u, text) == [r |-> r, c |-> IF u = None THEN Blank0 ELSE u[1], text |-> text]
No(s) == {[s |-> s, obs |-> Seen("err", None, "")]}
Made(s, u) == IF u = None THEN No(s) ELSE {[s |-> [s EXCEPT !.u = u], obs |-> Seen("ok", u, "same")]}
(* A local number without its context is still incomplete: not a URI yet. *)
Whole(u) == u.k # "tel" \/ u.glob \/ u.ctx # << >>
Post(s, a) ==
  CASE a.op = "parse" -> LET u == Parse(a.x) IN IF u = None THEN No(s) ELSE {[s |-> [s EXCEPT !.u = u], obs |-> Seen("ok", u, TextOf(a.x))]}
    [] a.op = "as" ->        \* the parsers of one scheme
         LET u == IF a.k = "sip" THEN Sip(a.x) ELSE Tel(a.x) IN
         IF u = None THEN No(s) ELSE {[s |-> [s EXCEPT !.u = u], obs |-> Seen("ok", u, TextOf(a.x))]}
    [] a.op = "new" -> Made(s, IF HostOK(Low(a.x)) THEN <<[Blank0 EXCEPT !.k = "sip", !.host = Low(a.x)]>> ELSE None)
    [] a.op = "tel" -> Made(s, IF NumberOK(Despace(a.x)) /\ a.glob = GlobalNum(Despace(a.x))
                               THEN <<[Blank0 EXCEPT !.k = "tel", !.num = Norm1(Despace(a.x)), !.glob = a.glob]>> ELSE None)
    [] a.op = "with" -> IF s.u = None \/ ~For(s.u[1], a.c.f) THEN {[s |-> s, obs |-> Seen("none", None, "")]}
                        ELSE LET u == Change(s.u[1], a.c) IN
                             Made(s, IF u # None /\ u[1].k = "sip" /\ a.c.f \in {"host", "user", "port", "param"} /\ Len(Write(u[1])) > 2048 THEN None ELSE u)

(* What was written after a change is judged by its meaning. *)
ToSet(q) == {q[i] : i \in DOMAIN q}
Norm(e) ==
  LET o == e.obs IN
  IF o.r # "ok" THEN (IF o.r \in {"err", "none"} THEN Seen(o.r, None, "") ELSE o)
  ELSE LET c == [o.c EXCEPT !.params = ToSet(@), !.hdrs = ToSet(@)] IN
       IF Cardinality(c.params) # Len(o.c.params) \/ Cardinality(c.hdrs) # Len(o.c.hdrs) \/ ~o.eq THEN o
       ELSE [r |-> "ok", c |-> c,
             text |-> IF e.op \in {"parse", "as"} THEN o.text
                      ELSE IF (IF Whole(c) THEN Parse(o.text) = <<c>> ELSE Scheme(o.text) = "tel" /\ Uric(o.text))
                      THEN "same" ELSE o.text]
StateOK(s) ==
  s.u = None \/ LET u == s.u[1] IN
  /\ u.k \in {"sip", "tel", "abs"}
  /\ u.k = "sip" => HostOK(u.host) /\ (u.user = << >> \/ UserOK(u.user[1])) /\ (u.port = "" \/ Port(u.port))
  /\ u.k = "tel" => NumberOK(u.num) /\ u.glob = (Ch(u.num, 1) = "+") /\ (u.glob => u.ctx = << >>)
=============================================================================
