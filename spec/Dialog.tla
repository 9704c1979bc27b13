------------------------------ MODULE Dialog ------------------------------
(***************************************************************************)
(* Dialogs (RFC 3261 section 12, RFC 4028 fields), the dialog manager and  *)
(* the dialog store.                                                       *)
(*                                                                         *)
(* Messages are records: call (Call-ID, "" = none), ft / tt (From and To   *)
(* tag, "" = no tag, "!" = header missing), cseq (number; -1 header        *)
(* missing, -2 stands for 2^31, anything lower is not a number), method,   *)
(* ct (user of the Contact, "" = none), rr (Record-Route: list of lines,   *)
(* each a list of hops), rrn (more generated hops), se / rf                *)
(* (Session-Expires and refresher), code (of a response), sty (the written *)
(* form, irrelevant to the meaning).                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
F(m, k, d) == IF k \in DOMAIN m THEN m[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
Range(q) == {q[k] : k \in 1..Len(q)}

MaxCseq == 2147483647
MaxJump == 1000
MaxRoutes == 50
MaxDialogs == 10000
MaxEarly == 100
MaxStored == 100000
Early == 0
Confirmed == 1
Terminated == 2

Tagged(m) == m.call # "" /\ m.ft \notin {"", "!"} /\ m.tt \notin {"", "!"}
(* the message carries a CSeq number a dialog can use *)
CseqNum(m) == IF m.cseq = -2 THEN "big" ELSE IF m.cseq < 0 THEN "none" ELSE "num"
MaxCseqOK(m) == CseqNum(m) = "num" /\ m.cseq >= 1
Routes(m) == Flat(F(m, "rr", << >>)) \o [k \in 1..F(m, "rrn", 0) |-> "n" \o ToString(k)]
HasSE(m) == F(m, "se", -1) \in 90..86400
RespMethod(m) == IF m.cseq = -1 THEN "" ELSE m.method

(* Requests and responses whose Contact replaces the remote target. *)
Refresh == {"INVITE", "UPDATE", "SUBSCRIBE", "NOTIFY", "REFER"}

Scheme(a, w) == IF (w = "l" /\ a.sips \in {"l", "lr"}) \/ (w = "r" /\ a.sips \in {"r", "lr"})
                THEN "sips" ELSE "sip"

(* The dialog a request and its response create, or none. *)
NewDialog(a) ==
  LET uac == a.uac
      w == a.resp
      q == a.req
      src == IF uac THEN w ELSE q
      routes == IF uac THEN Rev(Routes(w)) ELSE Routes(q)
      ru == Scheme(a, "r") \o ":r@example.com"
  IN IF ~(Tagged(w) /\ w.code \in 100..299 /\ MaxCseqOK(q) /\ Len(routes) <= MaxRoutes) THEN << >>
     ELSE << [id |-> IF uac THEN <<w.call, w.ft, w.tt>> ELSE <<w.call, w.tt, w.ft>>,
              st |-> IF w.code < 200 THEN Early ELSE Confirmed,
              tgt |-> IF src.ct # "" THEN src.ct ELSE ru,
              rs |-> routes,
              lc |-> IF uac THEN q.cseq ELSE 0,
              rc |-> IF uac THEN 0 ELSE q.cseq,
              ack |-> -1,
              sec |-> a.sips # "",
              se |-> IF HasSE(w) THEN w.se ELSE -1,
              rf |-> IF HasSE(w) THEN F(w, "rf", "") ELSE "",
              uac |-> uac,
              lu |-> Scheme(a, "l") \o ":l@example.com",
              ru |-> ru] >>

(* A request from the peer: accepted or refused without any effect. *)
Accepts(d, m) ==
  /\ d.st # Terminated
  /\ MaxCseqOK(m)
  /\ IF m.method = "ACK" THEN m.cseq = d.rc
     ELSE d.rc > 0 => m.cseq > d.rc /\ m.cseq - d.rc <= MaxJump
OnRequest(d, m) ==
  IF ~Accepts(d, m) THEN d
  ELSE LET e == IF m.method = "ACK" THEN [d EXCEPT !.ack = m.cseq] ELSE [d EXCEPT !.rc = m.cseq]
       IN IF m.method \in Refresh /\ m.ct # "" THEN [e EXCEPT !.tgt = m.ct] ELSE e

(* A response to one of our requests. *)
OnResponse(d, m) ==
  IF m.code >= 300 \/ d.st = Terminated THEN d
  ELSE LET ok == m.code >= 200
           confirms == d.st = Early /\ ok /\ RespMethod(m) = "INVITE"
           rs == Rev(Routes(m))
           e1 == IF RespMethod(m) \in Refresh /\ m.ct # "" /\ (ok \/ d.st = Early)
                 THEN [d EXCEPT !.tgt = m.ct] ELSE d
           e2 == IF confirms /\ rs # << >> /\ Len(rs) <= MaxRoutes THEN [e1 EXCEPT !.rs = rs] ELSE e1
           e3 == IF HasSE(m) THEN [e2 EXCEPT !.se = m.se, !.rf = F(m, "rf", "")] ELSE e2
       IN IF confirms THEN [e3 EXCEPT !.st = Confirmed] ELSE e3

Matches(d, m) == Tagged(m) /\ d.id = <<m.call, m.tt, m.ft>>

InitState(cfg) ==
  [d |-> << >>,        \* slots held by the user: name -> dialog
   m |-> << >>,        \* dialog manager: id -> dialog
   mf |-> << >>,       \* groups of filler dialogs in the manager [call, st, n]
   s |-> << >>,        \* dialog store: id -> dialog
   sf |-> 0]           \* filler dialogs in the store

R(x) == [r |-> x]
N(x) == [r |-> "n", n |-> x]
Opt(f, k) == IF k \in DOMAIN f THEN [r |-> "some", d |-> f[k]] ELSE R("none")
Len1(d) == [r |-> "some", d |-> d]

RECURSIVE SumN(_)
SumN(g) == IF g = << >> THEN 0 ELSE Head(g).n + SumN(Tail(g))
MCount(st) == Cardinality(DOMAIN st.m) + SumN(st.mf)
EarlyOf(st, call, id) ==
  Cardinality({i \in DOMAIN st.m : st.m[i].st = Early /\ i[1] = call /\ i # id})
  + SumN(SelectSeq(st.mf, LAMBDA g : g.st = "early" /\ g.call = call))
MRoom(st, d) ==
  /\ d.id \in DOMAIN st.m \/ MCount(st) < MaxDialogs
  /\ d.st = Early => EarlyOf(st, d.id[1], d.id) < MaxEarly
(* of n new dialogs, how many the manager takes *)
MTakes(st, n, call, state) ==
  LET a == Min(n, MaxDialogs - MCount(st))
  IN IF state = "early" /\ call # "*" THEN Max(0, Min(a, MaxEarly - EarlyOf(st, call, << >>))) ELSE a
SCount(st) == Cardinality(DOMAIN st.s) + st.sf

Same(st, o) == {[s |-> st, obs |-> o]}
To(st, o) == {[s |-> st, obs |-> o]}
SlotOp(st, a, d) ==
  CASE a.op = "req" ->
         To([st EXCEPT !.d[a.x] = OnRequest(d, a.req)],
            [r |-> IF Accepts(d, a.req) THEN "ok" ELSE "refused", d |-> OnRequest(d, a.req)])
    [] a.op = "resp" -> To([st EXCEPT !.d[a.x] = OnResponse(d, a.resp)], Len1(OnResponse(d, a.resp)))
    [] a.op = "matches" -> Same(st, R(IF Matches(d, a.req) THEN "yes" ELSE "no"))
    [] a.op = "confirm" ->
         LET e == IF d.st = Early THEN [d EXCEPT !.st = Confirmed] ELSE d
         IN To([st EXCEPT !.d[a.x] = e], Len1(e))
    [] a.op = "terminate" ->
         LET e == [d EXCEPT !.st = Terminated] IN To([st EXCEPT !.d[a.x] = e], Len1(e))
    [] a.op = "next" -> To([st EXCEPT !.d[a.x].lc = @ + 1], N(d.lc + 1))
    [] a.op = "setse" ->
         LET e == [d EXCEPT !.se = a.n]
         IN IF a.n \in 90..86400 THEN To([st EXCEPT !.d[a.x] = e], Len1(e))
            ELSE Same(st, [r |-> "refused", d |-> d])
    [] a.op = "needs" -> Same(st, R(IF d.se # -1 /\ 3 * a.n >= 2 * d.se THEN "yes" ELSE "no"))
    [] a.op = "mput" ->
         IF MRoom(st, d) THEN To([st EXCEPT !.m = Put(@, d.id, d)], R("ok")) ELSE Same(st, R("full"))
    [] a.op = "sput" ->
         To(IF d.id \in DOMAIN st.s \/ SCount(st) < MaxStored THEN [st EXCEPT !.s = Put(@, d.id, d)] ELSE st, R("ok"))

PartOK(n, max) == (n >= 1 /\ n <= max) \/ (n = -2 /\ 200 <= max)
Ids(m) == IF Tagged(m) THEN <<m.call, m.ft, m.tt>> ELSE << >>

SlotOps == {"req", "resp", "matches", "confirm", "terminate", "next", "setse", "needs", "mput", "sput"}
Post(st, a) ==
  CASE a.op \in SlotOps ->
         IF a.x \in DOMAIN st.d THEN SlotOp(st, a, st.d[a.x]) ELSE Same(st, R("nodialog"))
    [] a.op = "new" ->
         LET n == NewDialog(a)
         IN IF n = << >> THEN To([st EXCEPT !.d = Del(@, a.x)], R("none"))
            ELSE To([st EXCEPT !.d = Put(@, a.x, n[1])], Len1(n[1]))
    \* identities made by hand: parts must be present, short and printable
    [] a.op = "newid" ->
         Same(st, R(IF PartOK(a.c, 256) /\ PartOK(a.l, 128) /\ PartOK(a.t, 128) THEN "ok" ELSE "refused"))
    [] a.op = "ids" ->
         Same(st, [r |-> "ids", a |-> Ids(a.req), b |-> Ids(a.resp),
                   c |-> IF Tagged(a.resp) THEN <<a.resp.call, a.resp.tt, a.resp.ft>> ELSE << >>])
    [] a.op = "mget" -> Same(st, Opt(st.m, a.id))
    [] a.op = "mload" ->
         To([st EXCEPT !.d = IF a.id \in DOMAIN st.m THEN Put(@, a.x, st.m[a.id]) ELSE Del(@, a.x)], Opt(st.m, a.id))
    [] a.op = "mfind" ->
         Same(st, IF Tagged(a.req) THEN Opt(st.m, <<a.req.call, a.req.tt, a.req.ft>>) ELSE R("none"))
    [] a.op = "mrm" -> To([st EXCEPT !.m = Del(@, a.id)], Opt(st.m, a.id))
    [] a.op = "mcall" ->
         LET I == {i \in DOMAIN st.m : i[1] = a.call}
         IN IF I = {} THEN Same(st, R("none")) ELSE {[s |-> st, obs |-> Len1(st.m[i])] : i \in I}
    [] a.op = "mcount" -> Same(st, N(MCount(st)))
    [] a.op = "mclean" ->
         To([st EXCEPT !.m = [i \in {j \in DOMAIN st.m : st.m[j].st # Terminated} |-> st.m[i]],
                       !.mf = SelectSeq(@, LAMBDA g : g.st # "term")], R("ok"))
    [] a.op = "mids" -> Same(st, [r |-> "ids", v |-> DOMAIN st.m, n |-> Cardinality(DOMAIN st.m)])
    \* n new dialogs put one after another (mfill) or by eight threads (mstorm)
    [] a.op \in {"mfill", "mstorm"} ->
         LET k == MTakes(st, IF a.op = "mfill" THEN a.n ELSE 8 * (a.n \div 8), a.call, a.st)
         IN To([st EXCEPT !.mf = IF k = 0 THEN @ ELSE Append(@, [call |-> a.call, st |-> a.st, n |-> k])], N(k))
    [] a.op = "sget" -> Same(st, Opt(st.s, a.id))
    [] a.op = "srm" -> To([st EXCEPT !.s = Del(@, a.id)], R("ok"))
    [] a.op = "slist" ->
         LET I == {i \in DOMAIN st.s : i[1] = a.call}
         IN Same(st, [r |-> "list", n |-> Cardinality(I), v |-> {st.s[i] : i \in I}])
    [] a.op = "slen" -> Same(st, N(SCount(st)))
    [] a.op = "sfill" -> To([st EXCEPT !.sf = Min(@ + a.n, MaxStored - Cardinality(DOMAIN st.s))], R("ok"))

(* Listings are compared as sets. *)
Norm(e) ==
  CASE e.obs.r = "ids" /\ e.op = "mids" -> [r |-> "ids", v |-> Range(e.obs.v), n |-> Len(e.obs.v)]
    [] e.obs.r = "list" -> [r |-> "list", n |-> e.obs.n, v |-> Range(e.obs.v)]
    [] OTHER -> e.obs

DialogOK(d) ==
  /\ d.st \in {Early, Confirmed, Terminated}
  /\ Len(d.rs) <= MaxRoutes
  /\ d.rc >= 0 /\ d.lc >= 0
  /\ d.ack # -1 => d.ack >= 1 /\ d.ack <= d.rc
  /\ d.se # -1 => d.se \in 90..86400
StateOK(st) ==
  /\ \A x \in DOMAIN st.d : DialogOK(st.d[x])
  /\ \A i \in DOMAIN st.m : st.m[i].id = i /\ DialogOK(st.m[i])
  /\ \A i \in DOMAIN st.s : st.s[i].id = i
  /\ MCount(st) <= MaxDialogs
  /\ SCount(st) <= MaxStored
===========================================================================
