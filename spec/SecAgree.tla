----------------------------- MODULE SecAgree ------------------------------
(***************************************************************************)
(* Security agreement (RFC 3329): entries with parameters are built, put   *)
(* into Security-Client, -Server and -Verify headers, written, read, put   *)
(* in order of preference, matched and verified.                           *)
(* An entry is [m: mechanism, ps: set of [n, v]]; v = << >> or <<text>>.   *)
(* cur: the entry being built, h: the headers.                             *)
(***************************************************************************)
EXTENDS Text

Sides == {"client", "server", "verify"}
InitState(cfg) == [cfg |-> cfg, cur |-> << >>, h |-> [d \in Sides |-> << >>]]
R(x) == [r |-> x]
MaxEntries == 10   MaxPs == 20   MaxName == 64   MaxVal == 256
Ctl == {"\t", "\r", "\n", "\f"}

OkName(x) == IsToken(x) /\ Len(x) <= MaxName
(* A value is kept as written: separators only inside closed quotes. *)
RECURSIVE Closed(_, _, _)
Closed(x, i, quoted) ==
  IF i > Len(x) THEN i = Len(x) + 1 /\ ~quoted
  ELSE LET c == Ch(x, i) IN
       IF quoted /\ c = "\\" THEN Closed(x, i + 2, TRUE)
       ELSE IF c = "\"" THEN Closed(x, i + 1, ~quoted)
       ELSE (quoted \/ c \notin {";", ","}) /\ Closed(x, i + 1, quoted)
OkVal(x) == Len(x) <= MaxVal /\ ~Has(x, Ctl) /\ Closed(x, 1, FALSE) /\ Trim(x) = x

(* q values in thousandths; -1: no such value *)
Pad(x) == IF Len(x) = 0 THEN "000" ELSE IF Len(x) = 1 THEN x \o "00" ELSE IF Len(x) = 2 THEN x \o "0" ELSE x
QOf(x) == LET p == Split(x, ".")
              i == p[1]
              f == IF Len(p) = 2 THEN p[2] ELSE ""
          IN IF Len(p) > 2 \/ ~All(i \o f, Digits) \/ i \o f = "" \/ Len(f) > 3 \/ Len(i) > 3 THEN -1
             ELSE LET n == 1000 * Val(i) + Val(Pad(f)) IN IF n > 1000 THEN -1 ELSE n
RECURSIVE NoZeros(_)
NoZeros(x) == IF x # "" /\ Ch(x, Len(x)) = "0" THEN NoZeros(Upto(x, Len(x) - 1)) ELSE x
Digits3(n) == (IF n < 100 THEN "0" ELSE "") \o (IF n < 10 THEN "0" ELSE "") \o ToString(n)
QText(n) == IF n = 1000 THEN "1" ELSE IF n = 0 THEN "0" ELSE "0." \o NoZeros(Digits3(n))

Get(e, n) == {p \in e.ps : p.n = Low(n)}
With(e, n, v) == [e EXCEPT !.ps = (@ \ Get(e, n)) \cup {[n |-> Low(n), v |-> v]}]
CanSet(e, n, v) == OkName(n) /\ (v # << >> => OkVal(v[1])) /\ (Get(e, n) # {} \/ Cardinality(e.ps) < MaxPs)
Pref(e) == LET g == Get(e, "q") IN IF g = {} THEN -1 ELSE LET p == CHOOSE p \in g : TRUE IN IF p.v = << >> THEN -1 ELSE QOf(p.v[1])
Weight(e) == IF Pref(e) = -1 THEN 1 ELSE Pref(e)                   \* 0.001 when none is given
New(m) == [m |-> Low(m), ps |-> {}]

\* ------------------------------------------------------------ reading
Trims(q) == LET t == TLCEval(MapSeq(q, Trim)) IN Filter(t, LAMBDA y : y # "")
RECURSIVE ReadPs(_, _)
ReadPs(e, q) ==                                              \* e: << >> or <<entry>>
  IF q = << >> \/ e = << >> THEN e
  ELSE LET x == Head(q)
           j == ToQ(x, {"="}, 1, FALSE)
           n == Trim(Upto(x, j - 1))
           v == IF j > Len(x) THEN << >> ELSE <<Trim(From(x, j + 1))>>
       IN IF v # << >> /\ Low(n) = "q" /\ QOf(v[1]) = -1 THEN ReadPs(e, Tail(q))        \* no such preference: as if not given
          ELSE ReadPs(IF CanSet(e[1], n, v) THEN <<With(e[1], n, v)>> ELSE << >>, Tail(q))
Pieces(x, c) == Trims(SplitQ(x, c))
ReadEntry(x) == LET q == SplitQ(x, ";")
                    m == Trim(q[1])
                IN IF ~OkName(m) THEN << >> ELSE ReadPs(<<New(m)>>, Trims(Tail(q)))
Read(x) == LET es == TLCEval(MapSeq(Pieces(x, ","), ReadEntry)) IN
  IF es = << >> \/ Len(es) > MaxEntries \/ (\E i \in DOMAIN es : es[i] = << >>) THEN << >> ELSE <<TLCEval(MapSeq(es, LAMBDA e : e[1]))>>

(* an entry without a preference that is none: as it reads back *)
Given(e) == IF Pref(e) = -1 /\ \E p \in Get(e, "q") : p.v # << >> THEN [e EXCEPT !.ps = @ \ Get(e, "q")] ELSE e

\* ------------------------------------------------------------ writing
RECURSIVE WritePs(_)
WritePs(ps) == IF ps = {} THEN "" ELSE LET p == CHOOSE p \in ps : TRUE IN
  ";" \o p.n \o (IF p.v = << >> THEN "" ELSE "=" \o p.v[1]) \o WritePs(ps \ {p})
Write(es) == Join(MapSeq(es, LAMBDA e : e.m \o WritePs(e.ps)), ", ")

\* ------------------------------------------------------------ preference
Weights(es) == TLCEval([i \in DOMAIN es |-> Weight(es[i])])
OrderOf(w) == TLCEval([k \in DOMAIN w |-> CHOOSE i \in DOMAIN w : Cardinality({j \in DOMAIN w : w[j] > w[i] \/ (w[j] = w[i] /\ j < i)}) = k - 1])
Order(es) == OrderOf(Weights(es))
Has1(es, m) == \E i \in DOMAIN es : es[i].m = m
(* The best of the server's entries whose mechanism the client offers too: the one with the greatest product of   *)
(* preferences.  Of a mechanism the client lists twice, either the first or the preferred one may count.  Of equal *)
(* products the first counts when they are products of the same two numbers.                                        *)
FirstOf(I) == CHOOSE i \in I : \A j \in I : i <= j
MaxOf(I) == CHOOSE i \in I : \A j \in I : j <= i
Best(v, w) ==          \* v: the server's weights, w: for each the client's, or -1
  LET common == {i \in DOMAIN v : w[i] # -1}
      same(i, j) == {v[i], w[i]} = {v[j], w[j]}
  IN IF common = {} THEN {0}
     ELSE {i \in common : \A j \in common : v[j] * w[j] <= v[i] * w[i] /\ ~(j < i /\ v[j] * w[j] = v[i] * w[i] /\ same(i, j))}
Chosen(sv, cl) ==
  LET v == Weights(sv)
      u == Weights(cl)
      at == TLCEval([i \in DOMAIN sv |-> {k \in DOMAIN cl : cl[k].m = sv[i].m}])
      first == TLCEval([i \in DOMAIN sv |-> IF at[i] = {} THEN -1 ELSE u[FirstOf(at[i])]])
      most == TLCEval([i \in DOMAIN sv |-> IF at[i] = {} THEN -1 ELSE MaxOf({u[k] : k \in at[i]})])
  IN Best(v, first) \cup Best(v, most)

\* ------------------------------------------------------------ steps
View1(e) == [m |-> e.m, ps |-> e.ps, q |-> Pref(e)]
Fixed == [tls |-> << >>, digest |-> <<"d-alg", "d-qop">>, ipsec |-> <<"algorithm", "protocol", "mode">>]
MechOf == [tls |-> "tls", digest |-> "digest", ipsec |-> "ipsec-ike"]
RECURSIVE SetAll(_, _, _)
SetAll(e, ns, vs) == IF ns = << >> \/ vs = << >> THEN e ELSE SetAll(With(e, ns[1], <<vs[1]>>), Tail(ns), Tail(vs))
Post(s, a) ==
  CASE a.op = "entry" ->
         (IF a.via = "parse"
          THEN IF OkName(a.x) THEN {[s |-> [s EXCEPT !.cur = <<New(a.x)>>], obs |-> R("ok")]} ELSE {[s |-> s, obs |-> R("err")]}
          ELSE IF \A i \in DOMAIN a.vs : OkVal(a.vs[i])
               THEN {[s |-> [s EXCEPT !.cur = <<SetAll(New(MechOf[a.via]), Fixed[a.via], a.vs)>>], obs |-> R("ok")]}
               ELSE {[s |-> s, obs |-> R("err")]})
    [] s.cur = << >> /\ a.op \in {"set", "pref", "get", "put", "see"} -> {[s |-> s, obs |-> R("none")]}
    [] a.op = "set" ->
         (IF CanSet(s.cur[1], a.n, a.v)
          THEN {[s |-> [s EXCEPT !.cur = <<With(s.cur[1], a.n, a.v)>>], obs |-> R("ok")]} ELSE {[s |-> s, obs |-> R("err")]})
    [] a.op = "pref" ->          \* a.q in thousandths
         (IF a.q \in 0..1000 /\ CanSet(s.cur[1], "q", <<QText(a.q)>>)
          THEN {[s |-> [s EXCEPT !.cur = <<With(s.cur[1], "q", <<QText(a.q)>>)>>], obs |-> R("ok")]} ELSE {[s |-> s, obs |-> R("err")]})
    [] a.op = "get" -> {[s |-> s, obs |-> [r |-> "got", v |-> {p.v : p \in Get(s.cur[1], a.n)}]]}
    [] a.op = "see" -> {[s |-> s, obs |-> [r |-> "entry", e |-> View1(s.cur[1])]]}
    [] a.op = "put" ->           \* a.k copies; more than fit are refused and leave the header as it was
         (LET es == s.h[a.side] \o [i \in 1..a.k |-> s.cur[1]] IN
          IF Len(es) <= MaxEntries THEN {[s |-> [s EXCEPT !.h[a.side] = es], obs |-> R("ok")]} ELSE {[s |-> s, obs |-> R("err")]})
    [] a.op = "read" ->
         (LET v == Read(a.x) IN IF v = << >> THEN {[s |-> s, obs |-> R("err")]} ELSE {[s |-> [s EXCEPT !.h[a.side] = v[1]], obs |-> R("ok")]})
    [] a.op = "show" ->
         (LET es == s.h[a.side]
              sees(x) == [r |-> "header", es |-> MapSeq(es, View1), x |-> x,
                          order |-> IF a.side = "verify" THEN << >> ELSE Order(es)]
          IN IF "obs" \in DOMAIN a /\ a.obs.r = "header" /\ (IF es = << >> THEN a.obs.x = "" ELSE Read(a.obs.x) = <<MapSeq(es, Given)>>)
             THEN {[s |-> s, obs |-> sees(a.obs.x)]} ELSE {[s |-> s, obs |-> sees(Write(es))]})
    [] a.op = "again" -> {[s |-> [s EXCEPT !.h[a.side] = TLCEval(MapSeq(@, Given))], obs |-> R(IF s.h[a.side] = << >> THEN "err" ELSE "ok")]}      \* what is written is read in its place
    [] a.op = "best" -> {[s |-> s, obs |-> [r |-> "best", i |-> i]] : i \in Chosen(s.h.server, s.h.client)}
    [] a.op = "verify" -> {[s |-> s, obs |-> [r |-> "verify", oks |-> MapSeq(s.h.server, LAMBDA e : Has1(s.h.verify, e.m))]]}

Norm(e) == LET o == e.obs IN
  CASE o.r = "got" -> [o EXCEPT !.v = Range(@)]
    [] o.r = "entry" -> [o EXCEPT !.e.ps = Range(@)]
    [] o.r = "header" -> [o EXCEPT !.es = MapSeq(@, LAMBDA x : [x EXCEPT !.ps = Range(@)])]
    [] OTHER -> o
EntryOK(e) == OkName(e.m) /\ e.m = Low(e.m) /\ Cardinality(e.ps) <= MaxPs /\ (\A p \in e.ps : OkName(p.n) /\ p.n = Low(p.n) /\ (p.v # << >> => OkVal(p.v[1])))
              /\ \A p1, p2 \in e.ps : p1.n = p2.n => p1 = p2
StateOK(s) == (s.cur # << >> => EntryOK(s.cur[1])) /\ \A d \in Sides : Len(s.h[d]) <= MaxEntries /\ \A i \in DOMAIN s.h[d] : EntryOK(s.h[d][i])
=============================================================================
