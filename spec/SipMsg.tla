------------------------------- MODULE SipMsg -------------------------------
(***************************************************************************)
(* SIP messages (sip-core, sip-parse): what a datagram means as a request  *)
(* or response in the tolerant and in the strict reading, what is written  *)
(* for a message, and how the header list of a message changes.            *)
(*                                                                         *)
(* State: the current message, << >> or <<m>>, m = [kind, method, uri,     *)
(* code, reason, hdrs, body]; kind is "req" or "res"; hdrs is a sequence   *)
(* of [n, v], names in lower case; body is a string of one character per   *)
(* byte.  A datagram is given as its pieces between CRLFs.                 *)
(***************************************************************************)
EXTENDS Text
U == INSTANCE Uri

\* ------------------------------------------------------------------ head
Standard == {"INVITE", "ACK", "BYE", "CANCEL", "REGISTER", "OPTIONS", "INFO", "UPDATE", "MESSAGE", "PRACK", "REFER",
             "SUBSCRIBE", "NOTIFY", "PUBLISH"}
UpOf == [c \in Lower |-> LET i == CHOOSE i \in 1..26 : Ch(LowerS, i) = c IN Ch(UpperS, i)]
RECURSIVE Up(_)
Up(x) == IF x = "" THEN "" ELSE LET c == Ch(x, 1) IN (IF c \in Lower THEN UpOf[c] ELSE c) \o Up(From(x, 2))
NameChars == AlNum \cup Chars("!%'*+-.^_`|~")
MethodOK(x) == Len(x) \in 1..32 /\ All(x, NameChars)
Ctl == {"\r", "\n", "\t", "\f"}                        \* the control characters used here
ReasonOK(x) == Len(x) <= 256 /\ ~Has(x, Ctl)
NameOK(x) == Len(x) \in 1..128 /\ All(x, NameChars)
ValueOK(x) == Len(x) <= 8192 /\ ~Has(x, {"\r", "\n"})
Sp == {" ", "\t"}

Nothing == [kind |-> "", method |-> "", uri |-> "", code |-> 0, reason |-> "", hdrs |-> << >>, body |-> ""]
RequestLine(x) ==
  LET i == To(x, Sp, 1)
      j == Skip(x, Sp, i)
      k == To(x, Blank, j)
      l == Skip(x, Sp, k)
      method == Upto(x, i - 1)
      uri == SubSeq(x, j, k - 1) IN
  IF k > Len(x) THEN None
  ELSE IF /\ MethodOK(method) /\ Ch(x, k) \in Sp /\ EqNoCase(From(x, l), "SIP/2.0") /\ U!Parse(uri) # None
       THEN <<[Nothing EXCEPT !.kind = "req", !.method = Up(method), !.uri = U!TextOf(uri)]>> ELSE None
CodeOK(n) == n \in 100..699
StatusLine(x) ==
  LET j == Skip(x, Sp, 8)
      k == Skip(x, Digits, j)
      code == SubSeq(x, j, k - 1)
      reason == Trim(From(x, k)) IN
  IF Len(x) < 9 THEN None
  ELSE IF /\ EqNoCase(Upto(x, 7), "SIP/2.0") /\ j > 8 /\ Num(code, U16) /\ CodeOK(Val(code))
          /\ (k > Len(x) \/ Ch(x, k) \in Sp) /\ ReasonOK(reason)
       THEN <<[Nothing EXCEPT !.kind = "res", !.code = Val(code), !.reason = reason]>> ELSE None

\* ------------------------------------------------------------------ headers
Compact == [i |-> "call-id", f |-> "from", t |-> "to", m |-> "contact", l |-> "content-length", s |-> "subject",
            k |-> "supported", o |-> "event", e |-> "content-encoding", c |-> "content-type", v |-> "via",
            r |-> "refer-to", b |-> "referred-by", d |-> "request-disposition", x |-> "session-expires",
            a |-> "accept-contact", u |-> "allow-events"]
Long(n) == IF n \in DOMAIN Compact THEN Compact[n] ELSE n              \* n in lower case
Header(x) == LET j == To(x, {":"}, 1) IN [n |-> Long(Low(Trim(Upto(x, j - 1)))), v |-> Trim(From(x, j + 1))]
HeaderOK(x) == /\ Ch(x, 1) \notin Sp /\ Has(x, {":"})
               /\ NameOK(Header(x).n) /\ ValueOK(Header(x).v)
IsText(x) == x # ""
All1(hdrs, n) == SelectSeq(hdrs, LAMBDA h : h.n = n)
Values(hdrs, n) == LET q == All1(hdrs, n) IN [i \in DOMAIN q |-> q[i].v]
Single == {"call-id", "cseq", "from", "to", "max-forwards"}
MaxHeaders == 200

(* CSeq: a number below 2^31 and a method *)
CSeqOK(v, method) == LET w == Words(v) IN
  Len(w) = 2 /\ Num(w[1], "2147483647") /\ Canon(w[1]) # "0" /\ (method = "" \/ EqNoCase(w[2], method))
(* the branch of the topmost Via, if it has one, carries the magic cookie *)
BranchOK(b) == Len(b) \in 8..256 /\ Upto(b, 7) = "z9hG4bK" /\ All(b, TokenChars)
Branches(via) ==
  LET ps == SplitQ(SplitQ(via, ",")[1], ";")
      is(p) == Has(p, {"="}) /\ EqNoCase(Trim(Upto(p, To(p, {"="}, 1) - 1)), "branch") IN
  [i \in DOMAIN SelectSeq(ps, is) |-> LET p == SelectSeq(ps, is)[i] IN Trim(From(p, To(p, {"="}, 1) + 1))]
ViaOK(hdrs) == LET v == Values(hdrs, "via") IN
  v = << >> \/ Branches(v[1]) = << >> \/ BranchOK(Branches(v[1])[1])

\* ------------------------------------------------------------------ framing
MaxLength == "67108864"
(* the part of the data that is the body, << >> when the message is refused *)
Plain(hdrs, data) ==
  LET cl == Values(hdrs, "content-length")
      nums == {Canon(cl[i]) : i \in {i \in DOMAIN cl : IsNum(cl[i])}} IN
  IF nums = {} THEN <<data>>
  ELSE IF Cardinality(nums) > 1 THEN None
  ELSE LET n == CHOOSE n \in nums : TRUE IN
       IF AtMost(n, MaxLength) /\ Val(n) <= Len(data) THEN <<Upto(data, Val(n))>> ELSE None
Strict(hdrs, data) ==
  LET cl == Values(hdrs, "content-length") IN
  IF cl = << >> THEN (IF data = "" THEN <<data>> ELSE None)
  ELSE IF \A i \in DOMAIN cl : IsNum(cl[i]) /\ Canon(cl[i]) = ToString(Len(data)) THEN <<data>> ELSE None

DefaultLimit == 65536
(* head: its lines; data: what follows the empty line *)
Read(kind, strict, head, data) ==
  LET first == Trim(head[1])
      st == IF kind = "req" THEN RequestLine(first) ELSE StatusLine(first)
      rest == SelectSeq(Tail(head), IsText)
      hdrs == TLCEval([i \in DOMAIN rest |-> Header(rest[i])])
      body == IF strict THEN Strict(hdrs, data) ELSE Plain(hdrs, data) IN
  IF first = "" THEN None
  ELSE IF st = None \/ Len(rest) > MaxHeaders \/ \E i \in DOMAIN rest : ~HeaderOK(rest[i]) THEN None
  ELSE IF /\ \A n \in Single : Len(All1(hdrs, n)) <= 1
          /\ (kind = "req" => ViaOK(hdrs))
          /\ \A i \in DOMAIN Values(hdrs, "cseq") : CSeqOK(Values(hdrs, "cseq")[i], st[1].method)
          /\ body # None
       THEN <<[st[1] EXCEPT !.hdrs = hdrs, !.body = body[1]]>> ELSE None

Ends(lines) == {k \in 2..(Len(lines) - 1) : lines[k] = ""}
HeadOf(lines) == IF Ends(lines) = {} THEN lines
  ELSE SubSeq(lines, 1, (CHOOSE k \in Ends(lines) : \A j \in Ends(lines) : k <= j) - 1)
DataOf(lines) == IF Ends(lines) = {} THEN ""
  ELSE Join(SubSeq(lines, Len(HeadOf(lines)) + 2, Len(lines)), "\r\n")
RECURSIVE Sum(_)
Sum(q) == IF q = << >> THEN 0 ELSE Len(Head(q)) + Sum(Tail(q))
Size(lines) == Sum(lines) + 2 * (Len(lines) - 1)
Ascii(x) == ~Has(x, {"é", " "})
Parse(a) ==
  IF Size(a.lines) > (IF a.mode \in {"limit", "limitstrict"} THEN a.lim ELSE DefaultLimit) THEN None
  ELSE IF a.raw8 /\ \E i \in DOMAIN HeadOf(a.lines) : ~Ascii(HeadOf(a.lines)[i]) THEN None    \* not UTF-8
  ELSE Read(a.kind, a.mode \in {"strict", "limitstrict"}, HeadOf(a.lines), DataOf(a.lines))

\* ------------------------------------------------------------------ writing
Start(m) == IF m.kind = "req" THEN m.method \o " " \o m.uri \o " SIP/2.0"
            ELSE "SIP/2.0 " \o ToString(m.code) \o " " \o m.reason
Kept(h) == h.n \notin {"content-length", "l"}
Out(m) == LET q == SelectSeq(m.hdrs, Kept) IN
  TLCEval([i \in DOMAIN q |-> [n |-> Long(q[i].n), v |-> Trim(q[i].v)]])
  \o (IF m.kind = "req" /\ All1(m.hdrs, "max-forwards") = << >> THEN <<[n |-> "max-forwards", v |-> "70"]>> ELSE << >>)
LineOf(h) == h.n \o ": " \o h.v
HeadText(m) == TLCEval(<<Start(m)>> \o MapSeq(Out(m), LineOf) \o <<"content-length: " \o ToString(Len(m.body))>>)
Again(m, strict) == IF Sum(HeadText(m)) + 2 * Len(HeadText(m)) + 2 + Len(m.body) > DefaultLimit THEN None
                    ELSE Read(m.kind, strict, HeadText(m), m.body)

\* ------------------------------------------------------------------ operations
InitState(cfg) == [cfg |-> cfg, m |-> None]
Flags(m) == [std |-> m.method \in Standard, cls |-> m.code \div 100]
Seen(r, m) == [r |-> r, m |-> IF m = None THEN Nothing ELSE m[1], f |-> IF m = None THEN Flags(Nothing) ELSE Flags(m[1])]
Held(s) == IF s.m = None THEN << >> ELSE s.m[1].hdrs
At(hdrs, n) == LET S == {i \in DOMAIN hdrs : hdrs[i].n = n} IN
  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Lines(r, h) == [r |-> r, hdrs |-> h]
Set(s, h) == {[s |-> [s EXCEPT !.m[1].hdrs = h], obs |-> Lines("ok", h)]}
Keep(s, r) == {[s |-> s, obs |-> Lines(r, Held(s))]}
Cut(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
HdrOp(s, a) ==
  LET h == Held(s)
      n == Low(a.n)
      i == At(h, n) IN
  CASE a.op = "push" -> IF NameOK(n) /\ ValueOK(a.v) /\ Len(h) < MaxHeaders THEN Set(s, Append(h, [n |-> n, v |-> a.v])) ELSE Keep(s, "err")
    [] a.op = "set" -> IF NameOK(n) /\ ValueOK(a.v) /\ (i > 0 \/ Len(h) < MaxHeaders)
                       THEN Set(s, IF i > 0 THEN [h EXCEPT ![i].v = a.v] ELSE Append(h, [n |-> n, v |-> a.v])) ELSE Keep(s, "err")
    [] a.op = "replace" -> IF ~ValueOK(a.v) THEN Keep(s, "err")
                           ELSE IF i = 0 THEN Keep(s, "no") ELSE Set(s, [h EXCEPT ![i].v = a.v])
    [] a.op = "remove" -> LET q == SelectSeq(h, LAMBDA x : x.n # n) IN
                          {[s |-> [s EXCEPT !.m[1].hdrs = q], obs |-> Lines(ToString(Len(h) - Len(q)), q)]}
    [] a.op = "removeat" -> IF a.v \in {ToString(j) : j \in DOMAIN h}
                            THEN LET j == CHOOSE j \in DOMAIN h : ToString(j) = a.v IN
                                 {[s |-> [s EXCEPT !.m[1].hdrs = Cut(h, j)], obs |-> Lines(h[j].n \o ": " \o h[j].v, Cut(h, j))]}
                            ELSE Keep(s, "none")
    [] a.op = "maxf" ->
         LET k == At(h, "max-forwards")
             v == Trim(h[k].v) IN
         IF k = 0 THEN (IF Len(h) < MaxHeaders THEN {[p EXCEPT !.obs.r = "69"] : p \in Set(s, Append(h, [n |-> "max-forwards", v |-> "69"]))}
                        ELSE Keep(s, "bad"))
         ELSE IF ~Num(v, U8) THEN Keep(s, "bad")
         ELSE IF Val(v) = 0 THEN Keep(s, "zero")
         ELSE {[p EXCEPT !.obs.r = ToString(Val(v) - 1)] : p \in Set(s, [h EXCEPT ![k].v = ToString(Val(v) - 1)])}
First(q) == IF q = << >> THEN << >> ELSE <<q[1]>>
Get(s, n) == LET q == Values(Held(s), Low(n))
                 l == Values(Held(s), Long(Low(n))) IN
  [r |-> "ok", all |-> q, first |-> First(q), has |-> q # << >>, n |-> Len(q), long |-> First(IF q = << >> THEN l ELSE q)]
NoMsg(s) == {[s |-> s, obs |-> [r |-> "none"]]}
Made(s, m) == IF m = None THEN {[s |-> s, obs |-> Seen("err", None)]} ELSE {[s |-> [s EXCEPT !.m = m], obs |-> Seen("ok", m)]}
Post(s, a) ==
  CASE a.op = "parse" -> Made(s, Parse(a))
    [] a.op = "build" ->
         Made(s, IF a.kind = "req"
                 THEN (IF MethodOK(a.method) /\ U!Parse(a.uri) # None
                       THEN <<[Nothing EXCEPT !.kind = "req", !.method = Up(a.method), !.uri = U!TextOf(a.uri), !.body = a.body]>> ELSE None)
                 ELSE (IF CodeOK(a.code) /\ ReasonOK(a.reason)
                       THEN <<[Nothing EXCEPT !.kind = "res", !.code = a.code, !.reason = a.reason, !.body = a.body]>> ELSE None))
    [] a.op = "huge" -> {[s |-> s, obs |-> [r |-> IF a.n <= 10485760 THEN "fits" ELSE "refused"]]}
    [] s.m = None -> NoMsg(s)
    [] a.op = "body" -> Made(s, <<[s.m[1] EXCEPT !.body = a.v]>>)
    [] a.op = "uri" -> IF s.m[1].kind = "res" THEN NoMsg(s)
                       ELSE Made(s, IF U!Parse(a.v) = None THEN None ELSE <<[s.m[1] EXCEPT !.uri = U!TextOf(a.v)]>>)
    [] a.op = "get" -> {[s |-> s, obs |-> Get(s, a.n)]}
    [] a.op = "write" -> LET m == s.m[1] IN
         {[s |-> s, obs |-> [r |-> "ok", start |-> Start(m), hdrs |-> Out(m), len |-> Len(m.body), body |-> m.body,
                             again |-> Seen(IF Again(m, FALSE) = None THEN "err" ELSE "ok", Again(m, FALSE)),
                             strict |-> TRUE]]}
    [] OTHER -> HdrOp(s, a)

LowNames(q) == TLCEval([i \in DOMAIN q |-> [q[i] EXCEPT !.n = Low(@)]])
LongNames(q) == TLCEval([i \in DOMAIN q |-> [n |-> Long(Low(q[i].n)), v |-> Trim(q[i].v)]])
IsCL(h) == h.n = "content-length"
NotCL(h) == h.n # "content-length"
NormSeen(o) == [o EXCEPT !.m.hdrs = LowNames(@)]
Norm(e) ==
  LET o == e.obs IN
  IF o.r \in {"none", "PANIC"} THEN (IF "hdrs" \in DOMAIN o THEN [o EXCEPT !.hdrs = LowNames(@)] ELSE o)
  ELSE IF e.op \in {"parse", "build", "body", "uri"} THEN NormSeen(o)
  ELSE IF e.op = "get" THEN o
  ELSE IF e.op = "write" THEN
    LET hs == LongNames(o.hdrs)
        cl == SelectSeq(hs, IsCL) IN
    [r |-> o.r, start |-> o.start, hdrs |-> SelectSeq(hs, NotCL),
     len |-> IF Len(cl) = 1 /\ IsNum(cl[1].v) /\ Canon(cl[1].v) = ToString(Len(o.body)) THEN Len(o.body) ELSE -1,
     body |-> o.body, again |-> NormSeen(o.again), strict |-> o.strict]
  ELSE IF e.op = "removeat" /\ o.r # "err" THEN
    LET j == To(o.r, {":"}, 1) IN [o EXCEPT !.hdrs = LowNames(@), !.r = Low(Upto(@, j - 1)) \o From(@, j)]
  ELSE [o EXCEPT !.hdrs = LowNames(@)]

StateOK(s) == s.m = None \/ LET m == s.m[1] IN
  /\ m.kind \in {"req", "res"} /\ Len(m.hdrs) <= MaxHeaders
  /\ \A i \in DOMAIN m.hdrs : NameOK(m.hdrs[i].n) /\ ValueOK(m.hdrs[i].v)
  /\ m.kind = "req" => MethodOK(m.method) /\ U!Parse(m.uri) # None
  /\ m.kind = "res" => CodeOK(m.code) /\ ReasonOK(m.reason)
=============================================================================
