-------------------------------- MODULE Caps --------------------------------
(***************************************************************************)
(* User agent capabilities (RFC 3840) and caller preferences (RFC 3841):   *)
(* a capability set built feature by feature, written as Contact           *)
(* parameters and read back; Accept-Contact, Reject-Contact and the        *)
(* choice and order of contacts they produce; Request-Disposition.         *)
(* A value is [k, b, x, l, n]: boolean b, token x, list of tokens l,       *)
(* string x, number n (thousandths).  A set is a function feature -> value.*)
(***************************************************************************)
EXTENDS Text

Media == {"audio", "video", "application", "data", "control", "text"}
ListTags == {"events", "priority", "methods", "schemes", "extensions"}
Tags == Media \cup ListTags \cup {"automata", "class", "duplex", "mobility", "description", "isfocus", "actor", "language"}

MaxTok == 64   MaxStr == 256   MaxList == 20
MaxContacts == 1024   MaxHeaders == 32

InitState(cfg) == [cfg |-> cfg, caps |-> << >>]
R(x) == [r |-> x]
Keep(s, o) == {[s |-> s, obs |-> o]}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Bool(b) == [k |-> "bool", b |-> b, x |-> "", l |-> << >>, n |-> 0]
Tok(x) == [k |-> "tok", b |-> FALSE, x |-> x, l |-> << >>, n |-> 0]
List(l) == [k |-> "list", b |-> FALSE, x |-> "", l |-> l, n |-> 0]
Str(x) == [k |-> "str", b |-> FALSE, x |-> x, l |-> << >>, n |-> 0]
Number(n) == [k |-> "num", b |-> FALSE, x |-> "", l |-> << >>, n |-> n]

Ctl == {"\t", "\r", "\n", "\f"}
OkTok(x) == Len(x) <= MaxTok /\ IsToken(x)
OkVal(v, quotes) ==
  CASE v.k = "tok" -> OkTok(v.x)
    [] v.k = "list" -> Len(v.l) <= MaxList /\ \A i \in DOMAIN v.l : OkTok(v.l[i])
    [] v.k = "str" -> Len(v.x) <= MaxStr /\ ~Has(v.x, Ctl) /\ (quotes \/ ~Has(v.x, {"\""}))
    [] OTHER -> TRUE

(* What a feature asks for and what a contact offers agree when they are of *)
(* one kind and say the same; a list asks for all its tokens.               *)
Agree(q, v) ==
  q.k = v.k /\
  CASE q.k = "bool" -> q.b = v.b
    [] q.k = "tok" -> EqNoCase(q.x, v.x)
    [] q.k = "list" -> \A i \in DOMAIN q.l : \E j \in DOMAIN v.l : EqNoCase(q.l[i], v.l[j])
    [] q.k = "str" -> q.x = v.x
    [] q.k = "num" -> q.n = v.n
Hits(f, caps) == {t \in DOMAIN f : t \in DOMAIN caps /\ Agree(f[t], caps[t])}

(* ---- written form ---- *)
RECURSIVE StripZ(_)
StripZ(x) == IF x # "" /\ Ch(x, Len(x)) = "0" THEN StripZ(Upto(x, Len(x) - 1)) ELSE x
Pad3(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
NumText(n) == LET m == IF n < 0 THEN -n ELSE n
                  f == StripZ(Pad3(m % 1000)) IN
              (IF n < 0 THEN "-" ELSE "") \o ToString(m \div 1000) \o (IF f = "" THEN "" ELSE "." \o f)
Quote(x) == "\"" \o x \o "\""
WriteVal(v) == CASE v.k = "bool" -> None
                 [] v.k = "tok" -> <<v.x>>
                 [] v.k = "list" -> <<Quote(Join(v.l, ","))>>
                 [] v.k = "str" -> <<Quote(v.x)>>
                 [] v.k = "num" -> <<NumText(v.n)>>
WriteSet(c) == {[n |-> t, v |-> WriteVal(c[t])] : t \in {u \in DOMAIN c : c[u] # Bool(FALSE)}}

(* Decimal numbers, at most three places (what generators produce).         *)
Unsigned(x) == IF x # "" /\ Ch(x, 1) \in {"+", "-"} THEN From(x, 2) ELSE x
IsDec(x) == LET u == Unsigned(x) p == Split(u, ".") IN
  /\ Len(p) <= 2 /\ Has(u, Digits) /\ \A i \in DOMAIN p : All(p[i], Digits)
DecVal(x) == LET u == Unsigned(x) p == Split(u, ".")
                 whole == IF p[1] = "" THEN 0 ELSE Val(p[1])
                 frac == IF Len(p) < 2 THEN 0 ELSE Val(Upto(p[2] \o "000", 3))
                 m == whole * 1000 + frac
             IN IF Ch(x, 1) = "-" THEN -m ELSE m
Inner(x) == SubSeq(x, 2, Len(x) - 1)
Quoted(x) == Len(x) >= 2 /\ Ch(x, 1) = "\"" /\ Ch(x, Len(x)) = "\""
(* << >> when refused *)
ReadVal(t, o) ==
  IF o = None THEN <<Bool(TRUE)>>
  ELSE LET x == Trim(o[1])
           v == IF t \in ListTags
                THEN List(Filter(MapSeq(Split(IF Quoted(x) THEN Inner(x) ELSE x, ","), Trim), LAMBDA y : y # ""))
                ELSE IF Quoted(x) THEN Str(Inner(x))
                ELSE IF IsDec(x) THEN Number(DecVal(x))
                ELSE Tok(x)
       IN IF (Has(x, {"\""}) /\ ~Quoted(x)) \/ ~OkVal(v, FALSE) THEN << >> ELSE <<v>>
(* parameters: sequence of [n, v] in order of name, names distinct as       *)
(* written; features are named without regard to case, the last counts      *)
RECURSIVE ReadSet(_, _)
ReadSet(ps, c) ==
  IF ps = << >> THEN <<c>>
  ELSE LET p == Head(ps) t == Low(p.n)
           v == IF t \in Tags THEN ReadVal(t, p.v) ELSE << >> IN
       IF t \notin Tags THEN ReadSet(Tail(ps), c)
       ELSE IF v = << >> THEN << >> ELSE ReadSet(Tail(ps), Put(c, t, v[1]))

(* ---- sets given as sequences of [t, v]: later ones replace ---- *)
RECURSIVE SetOf(_, _), AnySeq(_)
AnySeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AnySeq(S \ {x})
SetOf(q, c) == IF q = << >> THEN c ELSE SetOf(Tail(q), Put(c, Head(q).t, Head(q).v))
Fn(q) == SetOf(q, << >>)
AsSeq(c) == {[t |-> t, v |-> c[t]] : t \in DOMAIN c}

(* ---- Accept-Contact, Reject-Contact ---- *)
Unit == 720720                          \* divisible by 1..16
\* points (of Unit) a contact gets from one Accept-Contact
Points(ac, caps, has) ==
  LET f == Fn(ac.f) n == Cardinality(DOMAIN f) h == Cardinality(Hits(f, caps)) IN
  IF n = 0 THEN Unit
  ELSE IF ac.exp /\ ~has THEN 0
  ELSE IF ac.req /\ h < n THEN 0
  ELSE h * (Unit \div n)
Rejected(rj, caps, has) == LET f == Fn(rj.f) IN DOMAIN f # {} /\ has /\ Hits(f, caps) = DOMAIN f
Clamp(n) == IF n < 0 THEN 0 ELSE IF n > 1000 THEN 1000 ELSE n

RECURSIVE Sum(_)
Sum(q) == IF q = << >> THEN 0 ELSE Head(q) + Sum(Tail(q))
(* scores of all contacts: sequence of [i, q, p] (p: points, of which the   *)
(* average over n headers counts), dropped ones left out                    *)
Scores(a) ==
  LET one(i) == LET c == a.cs[i] caps == Fn(c.f)
                    pts == [j \in DOMAIN a.ac |-> Points(a.ac[j], caps, c.has)] IN
        IF \/ \E j \in DOMAIN a.rj : Rejected(a.rj[j], caps, c.has)
           \/ \E j \in DOMAIN a.ac : a.ac[j].req /\ pts[j] = 0
        THEN << >>
        ELSE <<[i |-> i, q |-> Clamp(c.q), p |-> IF a.ac = << >> THEN (Clamp(c.qa) * 18018) \div 25 ELSE Sum(pts)]>>
  IN TLCEval(Cat([i \in DOMAIN a.cs |-> one(i)]))
Div(a) == IF a.ac = << >> THEN 1 ELSE Len(a.ac)
Before(x, y) == x.q > y.q \/ (x.q = y.q /\ x.p > y.p)
\* qa as reported: thousandths in points without headers, else points
Near(qa, p, n) == LET d == qa * n - p IN d <= n /\ -d <= n
Chosen(a, o) ==
  LET S == Scores(a) n == Div(a)
      rec(i) == CHOOSE x \in Range(S) : x.i = i IN
  /\ Len(o.v) = Len(S)
  /\ {o.v[k].i : k \in DOMAIN o.v} = {S[k].i : k \in DOMAIN S}
  /\ \A k \in DOMAIN o.v : o.v[k].q = rec(o.v[k].i).q /\ Near(o.v[k].qa, rec(o.v[k].i).p, n)
  /\ \A k \in 1..Len(o.v) - 1 : ~Before(rec(o.v[k + 1].i), rec(o.v[k].i))
Canonical(a) == LET S == SortSeq(Scores(a), Before) IN
  [r |-> "chosen", v |-> [k \in DOMAIN S |-> [i |-> S[k].i, q |-> S[k].q, qa |-> S[k].p \div Div(a)]]]

(* ---- Request-Disposition ---- *)
Directives == <<<<"proxy", "redirect">>, <<"fork", "no-fork">>, <<"cancel", "no-cancel">>,
                <<"recurse", "no-recurse">>, <<"parallel", "sequential">>, <<"queue", "no-queue">>>>
\* for each kind the last one named, "" if none
ReadDisp(x) ==
  LET w == MapSeq(Split(x, ","), LAMBDA y : Low(Trim(y)))
      last(i) == LET at == {k \in DOMAIN w : w[k] \in Range(Directives[i])} IN
                 IF at = {} THEN "" ELSE w[CHOOSE k \in at : \A j \in at : j <= k]
      d == [i \in 1..6 |-> last(i)]
  IN IF Has(x, Ctl) \/ \A i \in 1..6 : d[i] = "" THEN << >> ELSE d
WriteDisp(d) == Join(Filter(d, LAMBDA y : y # ""), ", ")

Post(s, a) ==
  CASE a.op = "add" -> IF OkVal(a.v, FALSE) THEN {[s |-> [s EXCEPT !.caps = Put(@, a.t, a.v)], obs |-> R("ok")]} ELSE Keep(s, R("err"))
    [] a.op = "clear" -> {[s |-> [s EXCEPT !.caps = << >>], obs |-> R("ok")]}
    [] a.op = "write" -> Keep(s, [r |-> "params", v |-> WriteSet(s.caps)])
    [] a.op \in {"read", "reread"} ->
         LET ps == IF a.op = "read" THEN a.ps ELSE AnySeq(WriteSet(s.caps))
             c == ReadSet(ps, << >>)
         IN IF c = << >> THEN Keep(s, R("err"))
            ELSE {[s |-> [s EXCEPT !.caps = c[1]], obs |-> [r |-> "set", v |-> AsSeq(c[1])]]}
    [] a.op = "has" -> Keep(s, [r |-> "has", v |-> IF a.t \in DOMAIN s.caps THEN <<s.caps[a.t]>> ELSE << >>, n |-> Cardinality(DOMAIN s.caps)])
    [] a.op = "match" -> Keep(s, R(IF \A t \in DOMAIN Fn(a.f) : t \in Hits(Fn(a.f), s.caps) THEN "yes" ELSE "no"))
    [] a.op = "accept" ->
         IF \E i \in DOMAIN a.f : ~OkVal(a.f[i].v, TRUE) THEN Keep(s, R("err"))
         ELSE Keep(s, [r |-> "points", n |-> Points(a, s.caps, a.has)])
    [] a.op = "reject" ->
         IF \E i \in DOMAIN a.f : ~OkVal(a.f[i].v, TRUE) THEN Keep(s, R("err"))
         ELSE Keep(s, R(IF Rejected(a, s.caps, a.has) THEN "yes" ELSE "no"))
    [] a.op = "score" ->
         IF "obs" \in DOMAIN a /\ a.obs.r = "chosen"
         THEN IF Chosen(a, a.obs) THEN Keep(s, a.obs) ELSE Keep(s, Canonical(a))
         ELSE Keep(s, Canonical(a))
    [] a.op = "sizes" ->
         Keep(s, IF a.cs > MaxContacts \/ a.ac > MaxHeaders \/ a.rj > MaxHeaders \/ a.caps # a.cs THEN R("err")
                 ELSE [r |-> "count", n |-> a.cs])
    [] a.op = "disp" -> LET d == ReadDisp(a.x) IN
         Keep(s, IF d = << >> THEN R("err") ELSE [r |-> "disp", d |-> d, x |-> WriteDisp(d)])
    [] a.op = "dispw" -> Keep(s, [r |-> "disp", d |-> a.d, x |-> WriteDisp(a.d)])
    [] a.op = "name" -> LET t == Low(a.x) IN
         Keep(s, IF t \in Tags THEN [r |-> "tag", x |-> t, full |-> "sip." \o t, media |-> t \in Media, list |-> t \in ListTags] ELSE R("err"))
Norm(e) == IF e.obs.r \in {"params", "set"} THEN [e.obs EXCEPT !.v = Range(@)] ELSE e.obs
StateOK(s) == \A t \in DOMAIN s.caps : t \in Tags /\ OkVal(s.caps[t], FALSE)
=============================================================================
