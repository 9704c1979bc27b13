------------------------------- MODULE Body -------------------------------
(***************************************************************************)
(* Message bodies that are lines of text: CPIM instant messages (RFC 3862),*)
(* message summaries (RFC 3842) and message fragments (RFC 3420).          *)
(* v: << >> or <<the document that is being built or was read>>.           *)
(*  cpim [ct, hs: set of [n, q: sequence of [v, ps]], ch: set of [n, v], b]*)
(*  mwi  [w, acc: opt, cl: set of [c, n: 4 numbers], mh: seq of 7 opts]    *)
(*  frag [st: start line, hs: sequence of [n, v], b]                       *)
(***************************************************************************)
EXTENDS Quoted

InitState(cfg) == [cfg |-> cfg, k |-> "none", v |-> << >>]
R(x) == [r |-> x]
Ctl == {"\t", "\r", "\n", "\f"}
NL == "\r\n"
RECURSIVE FindIn(_, _, _)         \* first position of p in x from i on, beyond its length if none
FindIn(x, p, i) == LET j == To(x, {Ch(p, 1)}, i) IN
  IF j > Len(x) THEN j ELSE IF j + Len(p) - 1 <= Len(x) /\ SubSeq(x, j, j + Len(p) - 1) = p THEN j ELSE FindIn(x, p, j + 1)
Lines(x) == Filter(MapSeq(Split(x, "\n"), Trim), LAMBDA y : y # "")
Opt(q) == IF q = << >> THEN "-" ELSE q[1]
OfName(S, n) == {e \in S : e.n = n}
Put(S, n, v) == {e \in S : e.n # n} \cup {[n |-> n, v |-> v]}
RECURSIVE Total(_)
Total(hs) == IF hs = {} THEN 0 ELSE LET e == CHOOSE e \in hs : TRUE IN Len(e.q) + Total(hs \ {e})

\* ------------------------------------------------------------ CPIM
MaxName == 128   MaxVal == 1024   MaxPName == 64   MaxPVal == 256   MaxHs == 50   MaxPs == 10   MaxCh == 20   MaxCt == 256
OkName(n) == n # "" /\ Len(n) <= MaxName /\ ~Has(n, Ctl \cup {" ", ":", ";", "=", "\\", "\""})
OkPName(n) == n # "" /\ Len(n) <= MaxPName /\ ~Has(n, Ctl \cup {" ", ";", "=", "\\", "\""})
OkPVal(v) == Len(v) <= MaxPVal /\ ~Has(v, Ctl \cup {" ", ";", "\\", "\""})
OkCt(x) == x # "" /\ Len(x) <= MaxCt /\ ~Has(x, Ctl)
OkCVal(v) == Len(v) <= MaxVal /\ ~Has(v, Ctl)
IsCt(n) == EqNoCase(n, "Content-type")
RECURSIVE WithPs(_, _)            \* parameters added one by one; <<set>> or << >>
WithPs(q, S) == IF q = << >> THEN <<S>>
  ELSE IF ~OkPName(q[1].n) \/ ~OkPVal(q[1].v) \/ Cardinality(S) >= MaxPs THEN << >> ELSE WithPs(Tail(q), Put(S, q[1].n, q[1].v))
AddHeader(hs, n, h) == LET old == {e \in hs : e.n = n} IN
  (hs \ old) \cup {[n |-> n, q |-> Append(IF old = {} THEN << >> ELSE (CHOOSE e \in old : TRUE).q, h)]}
(* characters that stand for themselves in a header value; the others are escaped *)
Special == {"\\", "\"", "\t", "\n", "\r", "\f"}
Esc(c) == CASE c = "\\" -> "\\\\" [] c = "\"" -> "\\\"" [] c = "\t" -> "\\t" [] c = "\n" -> "\\n" [] c = "\r" -> "\\r" [] c = "\f" -> "\\u000c"
RECURSIVE Escaped(_), Unescaped(_, _), Hex4(_, _)
Escaped(x) == LET j == To(x, Special, 1) IN IF j > Len(x) THEN x ELSE Upto(x, j - 1) \o Esc(Ch(x, j)) \o Escaped(From(x, j + 1))
Printables == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Hex4(x, n) == IF x = "" THEN n ELSE LET c == Low(Ch(x, 1)) IN
  Hex4(From(x, 2), 16 * n + (IF c \in Digits THEN DigitVal[c] ELSE 9 + (CHOOSE i \in 1..6 : Ch("abcdef", i) = c)))
OfCode(n) == IF n \in 32..126 THEN Ch(Printables, n - 31) ELSE CASE n = 9 -> "\t" [] n = 10 -> "\n" [] n = 12 -> "\f" [] n = 13 -> "\r"
Unescaped(x, d) == LET j == To(x, {"\\"}, 1) c == IF j < Len(x) THEN Ch(x, j + 1) ELSE "" IN
  IF j > Len(x) THEN <<d \o x>>
  ELSE IF c \in {"\\", "\"", "t", "n", "r"}
       THEN Unescaped(From(x, j + 2), d \o Upto(x, j - 1) \o (CASE c = "t" -> "\t" [] c = "n" -> "\n" [] c = "r" -> "\r" [] OTHER -> c))
  ELSE IF c = "u" /\ j + 5 <= Len(x) /\ All(SubSeq(x, j + 2, j + 5), Hex)
       THEN Unescaped(From(x, j + 6), d \o Upto(x, j - 1) \o OfCode(Hex4(SubSeq(x, j + 2, j + 5), 0)))
  ELSE << >>
(* one header line: [n, h] or << >>; parameters follow the colon, or (tolerated) the name *)
ParOf(y) == LET j == To(y, {"="}, 1) IN [n |-> Trim(Upto(y, j - 1)), v |-> Trim(From(y, j + 1))]
HeaderOf(x) ==
  LET j == To(x, {":"}, 1)
      rest == From(x, j + 1)
      k == To(rest, {" "}, 1)
      own == rest # "" /\ Ch(rest, 1) = ";"
      w == Split(Upto(x, j - 1), ";") \o (IF own THEN Split(Upto(rest, k - 1), ";") ELSE << >>)
      ps == TLCEval(WithPs(MapSeq(Filter(Tail(w), LAMBDA y : Has(y, {"="})), ParOf), {}))
      v == TLCEval(Unescaped(Trim(IF own THEN From(rest, k + 1) ELSE rest), ""))
  IN IF j > Len(x) \/ ~OkName(Trim(w[1])) \/ ps = << >> \/ v = << >> THEN << >>
     ELSE IF Len(v[1]) > MaxVal THEN << >> ELSE <<[n |-> Trim(w[1]), h |-> [v |-> v[1], ps |-> ps[1]]]>>
RECURSIVE Headers(_, _), Contents(_, _)
Headers(q, hs) == IF q = << >> THEN (IF Total(hs) > MaxHs THEN << >> ELSE <<hs>>)
  ELSE LET a == TLCEval(HeaderOf(q[1])) IN IF a = << >> THEN << >> ELSE Headers(Tail(q), AddHeader(hs, a[1].n, a[1].h))
Contents(q, p) == IF q = << >> THEN <<p>>
  ELSE LET j == To(q[1], {":"}, 1) n == Trim(Upto(q[1], j - 1)) v == Trim(From(q[1], j + 1)) IN
       IF j > Len(q[1]) THEN Contents(Tail(q), p)
       ELSE IF IsCt(n) THEN (IF OkCt(v) THEN Contents(Tail(q), [p EXCEPT !.ct = v]) ELSE << >>)
       ELSE IF ~OkName(n) \/ ~OkCVal(v) \/ Cardinality(p.ch) >= MaxCh THEN << >>
       ELSE Contents(Tail(q), [p EXCEPT !.ch = Put(@, n, v)])
(* the lines up to the next blank one, and what follows *)
Section(x, e) == IF Len(x) >= Len(e) /\ Upto(x, Len(e)) = e THEN <<"", From(x, Len(e) + 1)>>
  ELSE LET j == FindIn(x, e \o e, 1) IN IF j > Len(x) THEN << >> ELSE <<Upto(x, j - 1), From(x, j + 2 * Len(e))>>
CRead(x) ==
  LET j == To(x, {"\n"}, 1)
      e == IF j \in 2..Len(x) /\ Ch(x, j - 1) = "\r" THEN NL ELSE "\n"
      a == TLCEval(Section(x, e))
      b == IF a = << >> THEN << >> ELSE TLCEval(Section(a[2], e))
      c == IF b = << >> THEN << >> ELSE TLCEval(Section(b[2], e))
      m == Low(a[1])
  IN IF c = << >> \/ FindIn(m, "message/cpim", 1) > Len(m) THEN << >>
     ELSE LET hs == TLCEval(Headers(Lines(b[1]), {}))
              p == TLCEval(Contents(Lines(c[1]), [ct |-> "text/plain", ch |-> {}])) IN
          IF hs = << >> \/ p = << >> THEN << >> ELSE <<[ct |-> p[1].ct, hs |-> hs[1], ch |-> p[1].ch, b |-> c[2]]>>
CNew(ct, b) == IF OkCt(ct) THEN <<[ct |-> ct, hs |-> {}, ch |-> {}, b |-> b]>> ELSE << >>
Single == {"From", "DateTime"}
CHdr(v, a) ==
  LET ps == TLCEval(WithPs(a.ps, {}))
      old == {e \in v.hs : e.n = a.n}
      n == IF a.set THEN Total(v.hs \ old) ELSE Total(v.hs)
  IN IF ~OkName(a.n) \/ ps = << >> \/ Len(a.v) > MaxVal \/ n >= MaxHs THEN << >>
     ELSE <<[v EXCEPT !.hs = AddHeader(IF a.set THEN @ \ old ELSE @, a.n, [v |-> a.v, ps |-> ps[1]])]>>
CCh(v, a) == IF ~OkName(a.n) \/ IsCt(a.n) \/ ~OkCVal(a.v) \/ Cardinality(v.ch) >= MaxCh THEN << >> ELSE <<[v EXCEPT !.ch = Put(@, a.n, a.v)]>>
(* as it reads back: without blanks around values *)
CClean(v) == [v EXCEPT !.ct = Trim(@), !.ch = {[n |-> e.n, v |-> Trim(e.v)] : e \in @},
              !.hs = {[n |-> e.n, q |-> MapSeq(e.q, LAMBDA h : [v |-> TrimOf(h.v, {" "}), ps |-> h.ps])] : e \in @}]

\* ------------------------------------------------------------ message summaries
Classes == {"voice", "fax", "pager", "multimedia", "text", "none"}
Fields == <<"to", "from", "subject", "date", "priority", "message-id", "message-context">>
MaxAcc == 512   MaxMh == 50   MaxBody == 102400
Blank7 == [i \in 1..7 |-> << >>]
OkAcc(x) == Len(x) <= MaxAcc /\ ~Has(x, Ctl)
OkField(x) == Len(x) <= MaxVal /\ ~Has(x, Ctl)
RECURSIVE AddDig(_, _, _)         \* sum of two numerals
AddDig(x, y, c) == IF x = "" /\ y = "" THEN (IF c = 0 THEN "" ELSE "1")
  ELSE LET d(z) == IF z = "" THEN 0 ELSE DigitVal[Ch(z, Len(z))]
           up(z) == Upto(z, Len(z) - 1)
           n == d(x) + d(y) + c
       IN AddDig(up(x), up(y), n \div 10) \o ToString(n % 10)
Sum(x, y) == LET n == Canon(AddDig(x, y, 0)) IN IF AtMost(n, U32) THEN n ELSE U32
RECURSIVE SumOf(_, _)
SumOf(cl, i) == IF cl = {} THEN "0" ELSE LET e == CHOOSE e \in cl : TRUE IN Sum(e.n[i], SumOf(cl \ {e}, i))
Pair(x) == LET j == To(x, {"/"}, 1) a == Trim(Upto(x, j - 1)) b == Trim(From(x, j + 1)) IN
  IF j <= Len(x) /\ Num(a, U32) /\ Num(b, U32) THEN <<Canon(a), Canon(b)>> ELSE << >>
Counts(x) ==
  LET j == To(x, {"("}, 1)
      m == Pair(Upto(x, j - 1))
      u == Trim(From(x, j + 1))
      p == IF u # "" /\ Ch(u, Len(u)) = ")" THEN Pair(Upto(u, Len(u) - 1)) ELSE << >>
  IN IF m = << >> THEN << >> ELSE IF p = << >> THEN m \o <<"0", "0">> ELSE m \o p
MNew(w) == [w |-> w, acc |-> << >>, cl |-> {}, mh |-> << >>]
ClassOf(n) == {c \in Classes : n = c \o "-message"}
FieldNo(n) == {i \in 1..7 : Fields[i] = n}
RECURSIVE Summary(_, _, _, _)     \* q: lines left, v: so far, cur: open group of fields, st: the status was seen
Flush(v, cur) == IF cur = Blank7 THEN <<v>> ELSE IF Len(v.mh) >= MaxMh THEN << >> ELSE <<[v EXCEPT !.mh = Append(@, cur)]>>
Summary(q, v, cur, st) ==
  IF q = << >> \/ q[1] = ""
  THEN LET w == Flush(v, cur) IN
       IF w = << >> THEN << >> ELSE IF q = << >> THEN (IF st THEN w ELSE << >>) ELSE Summary(Tail(q), w[1], Blank7, st)
  ELSE LET j == To(q[1], {":"}, 1)
           n == Low(Trim(Upto(q[1], j - 1)))
           x == Trim(From(q[1], j + 1))
           f == FieldNo(n)
           c == ClassOf(n)
       IN IF j > Len(q[1]) THEN Summary(Tail(q), v, cur, st)
          ELSE IF n = "messages-waiting"
          THEN (IF Low(x) \in {"yes", "no"} THEN Summary(Tail(q), [v EXCEPT !.w = Low(x)], cur, TRUE) ELSE << >>)
          ELSE IF n = "message-account" THEN (IF OkAcc(x) THEN Summary(Tail(q), [v EXCEPT !.acc = <<x>>], cur, st) ELSE << >>)
          ELSE IF c # {} THEN LET k == TLCEval(Counts(x)) id == CHOOSE id \in c : TRUE IN
            Summary(Tail(q), IF k = << >> THEN v ELSE [v EXCEPT !.cl = {e \in @ : e.c # id} \cup {[c |-> id, n |-> k]}], cur, st)
          ELSE IF f # {} THEN (IF OkField(x) THEN Summary(Tail(q), v, [cur EXCEPT ![CHOOSE i \in f : TRUE] = <<x>>], st) ELSE << >>)
          ELSE Summary(Tail(q), v, cur, st)
MRead(x) == IF Len(x) > MaxBody THEN << >> ELSE Summary(MapSeq(Split(x, "\n"), Trim), MNew("no"), Blank7, FALSE)
TrimOpt(q) == MapSeq(q, Trim)
MClean(v) == [v EXCEPT !.acc = TrimOpt(@), !.mh = Filter(MapSeq(@, LAMBDA g : [i \in 1..7 |-> TrimOpt(g[i])]), LAMBDA g : g # Blank7)]

\* ------------------------------------------------------------ message fragments
MaxFrag == 65536   MaxReason == 256
HName(n) == n # "" /\ Len(n) <= MaxName /\ All(n, (TokenChars \cup {"^", "|"}))
HVal(v) == Len(v) <= 8192 /\ ~Has(v, {"\r", "\n"})
Value(hs, n) == LET q == Filter(hs, LAMBDA h : EqNoCase(h.n, n)) IN IF q = << >> THEN << >> ELSE <<q[1].v>>
BodyFits(hs, b) == Len(b) = 0 \/ (Len(b) <= MaxFrag /\ Value(hs, "Content-Type") # << >>
  /\ LET l == Value(hs, "Content-Length") IN l # << >> /\ Num(Trim(l[1]), U32) /\ Canon(Trim(l[1])) = ToString(Len(b)))
Status(a) == IF Num(a.code, "699") /\ Val(a.code) >= 100 /\ Len(a.reason) <= MaxReason /\ ~Has(a.reason, Ctl) THEN <<<<"response", a.code, a.reason>>>> ELSE << >>
FNew(a) ==
  LET start == CASE a.kind \in {"status", "response", "full"} -> Status(a) [] a.kind = "request" -> <<<<"request", a.m, a.uri>>>> [] OTHER -> <<<< >>>>
  IN IF start = << >> \/ ~BodyFits(a.hs, a.b) THEN << >> ELSE <<[st |-> start[1], hs |-> a.hs, b |-> a.b]>>
FHdr(v, a) == IF HName(a.n) /\ HVal(a.v) /\ Len(v.hs) < 200 THEN <<[v EXCEPT !.hs = Append(@, [n |-> a.n, v |-> a.v])]>> ELSE << >>
FBody(v, a) == IF BodyFits(v.hs, a.b) THEN <<[v EXCEPT !.b = a.b]>> ELSE << >>
(* the text read as it is defined *)
StartOf(x) ==
  LET j == To(x, {" "}, 1) k == To(x, {" "}, j + 1) a == Upto(x, j - 1) b == SubSeq(x, j + 1, k - 1) c == From(x, k + 1) IN
  IF k > Len(x) THEN <<"?">> ELSE IF a = "SIP/2.0" THEN <<"response", b, c>> ELSE IF c = "SIP/2.0" THEN <<"request", a, b>> ELSE <<"?">>
LineHdr(x) == LET j == To(x, {":"}, 1) IN [n |-> Upto(x, j - 1), v |-> Trim(From(x, j + 1))]
RECURSIVE HLines(_, _)            \* header lines up to a blank line or the end; then the body
HLines(x, hs) == IF x = "" THEN [hs |-> hs, b |-> ""] ELSE LET j == FindIn(x, NL, 1) IN
  IF j > Len(x) THEN [hs |-> Append(hs, [n |-> "?", v |-> x]), b |-> ""]
  ELSE IF j = 1 THEN [hs |-> hs, b |-> From(x, 3)] ELSE HLines(From(x, j + 2), Append(hs, LineHdr(Upto(x, j - 1))))
FRead(x) ==
  LET j == FindIn(x, NL, 1) l == Upto(x, j - 1) st == StartOf(l)
      has == j > 1 /\ ~HName(Upto(l, To(l, {":"}, 1) - 1)) /\ x # ""
      p == TLCEval(HLines(IF has THEN From(x, j + 2) ELSE x, << >>))
  IN [st |-> IF has THEN st ELSE << >>, hs |-> p.hs, b |-> p.b]
FClean(v) == [v EXCEPT !.hs = MapSeq(@, LAMBDA h : [n |-> h.n, v |-> Trim(h.v)])]

\* ------------------------------------------------------------ operations
Shown(k, v) ==
  CASE k = "cpim" -> [r |-> "cpim", ct |-> v.ct, hs |-> v.hs, ch |-> v.ch, b |-> v.b]
    [] k = "mwi" -> [r |-> "mwi", w |-> v.w, acc |-> Opt(v.acc), cl |-> {[c |-> e.c, n |-> e.n, t |-> <<Sum(e.n[1], e.n[2]), Sum(e.n[3], e.n[4])>>] : e \in v.cl},
                     mh |-> v.mh, t |-> <<SumOf(v.cl, 1), SumOf(v.cl, 2), IF \E e \in v.cl : e.n[3] # "0" \/ e.n[4] # "0" THEN "yes" ELSE "no">>]
    [] k = "frag" -> [r |-> "frag", st |-> v.st, hs |-> v.hs, b |-> v.b]
Clean(k, v) == CASE k = "cpim" -> CClean(v) [] k = "mwi" -> MClean(v) [] k = "frag" -> FClean(v)
ReadAs(k, x) == CASE k = "cpim" -> CRead(x) [] k = "mwi" -> MRead(x) [] k = "frag" -> <<FRead(x)>>
Set(s, k, v) == IF v = << >> THEN {[s |-> s, obs |-> R("err")]} ELSE {[s |-> [s EXCEPT !.k = k, !.v = v], obs |-> R("ok")]}
Keep(s, o) == {[s |-> s, obs |-> o]}
Bad(s) == Keep(s, R("none"))
Post(s, a) ==
  CASE a.op = "cnew" -> Set(s, "cpim", CNew(a.ct, a.b))
    [] a.op = "mnew" -> Set(s, "mwi", <<MNew(a.w)>>)
    [] a.op = "fnew" -> Set(s, "frag", TLCEval(FNew(a)))
    [] a.op = "read" -> Set(s, a.k, TLCEval(ReadAs(a.k, a.x)))
    [] s.v = << >> -> Bad(s)
    [] a.op = "show" -> Keep(s, Shown(s.k, s.v[1]))
    [] a.op = "again" ->          \* what is written reads back, by the definition of the text and by the code
         LET c == TLCEval(Clean(s.k, s.v[1])) IN
         Keep(s, Shown(s.k, c) @@ [x |-> IF "obs" \in DOMAIN a /\ "x" \in DOMAIN a.obs /\ TLCEval(ReadAs(s.k, a.obs.x)) = <<c>> THEN a.obs.x ELSE "?"])
    [] s.k = "cpim" /\ a.op = "chdr" -> Set(s, "cpim", TLCEval(CHdr(s.v[1], a)))
    [] s.k = "cpim" /\ a.op = "cch" -> Set(s, "cpim", CCh(s.v[1], a))
    [] s.k = "cpim" /\ a.op = "body" -> Set(s, "cpim", <<[s.v[1] EXCEPT !.b = a.b]>>)
    [] s.k = "mwi" /\ a.op = "macc" -> Set(s, "mwi", IF OkAcc(a.x) THEN <<[s.v[1] EXCEPT !.acc = <<a.x>>]>> ELSE << >>)
    [] s.k = "mwi" /\ a.op = "mcls" -> Set(s, "mwi", <<[s.v[1] EXCEPT !.cl = {e \in @ : e.c # a.c} \cup {[c |-> a.c, n |-> a.n]}]>>)
    [] s.k = "mwi" /\ a.op = "mhdr" -> Set(s, "mwi", IF Len(s.v[1].mh) < MaxMh /\ \A i \in 1..7 : a.f[i] # << >> => OkField(a.f[i][1])
                                              THEN <<[s.v[1] EXCEPT !.mh = Append(@, a.f)]>> ELSE << >>)
    [] s.k = "frag" /\ a.op = "fhdr" -> Set(s, "frag", FHdr(s.v[1], a))
    [] s.k = "frag" /\ a.op = "body" -> Set(s, "frag", TLCEval(FBody(s.v[1], a)))
    [] OTHER -> Bad(s)
NormH(e) == [n |-> e.n, q |-> MapSeq(e.q, LAMBDA h : [v |-> h.v, ps |-> Range(h.ps)])]
Norm(e) == LET o == e.obs IN
  CASE o.r = "cpim" -> [o EXCEPT !.hs = {NormH(@[i]) : i \in DOMAIN @}, !.ch = Range(@)]
    [] o.r = "mwi" -> [o EXCEPT !.cl = Range(@)]
    [] OTHER -> o
StateOK(s) ==
  /\ (s.v = << >>) = (s.k = "none")
  /\ s.k = "cpim" => Total(s.v[1].hs) <= MaxHs /\ Cardinality(s.v[1].ch) <= MaxCh /\ \A e \in s.v[1].hs : OkName(e.n)
  /\ s.k = "mwi" => Len(s.v[1].mh) <= MaxMh
  /\ s.k = "frag" => BodyFits(s.v[1].hs, s.v[1].b)
=============================================================================
