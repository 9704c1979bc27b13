------------------------------ MODULE Transaction ------------------------------
(***************************************************************************)
(* The transaction layer (RFC 3261 section 17 as the manual of sip-        *)
(* transaction describes it): client and server transactions over several  *)
(* transports, their retransmission and lifetime timers, fail-over between *)
(* the addresses of one destination (RFC 3263 4.3), and the limits on how  *)
(* many transactions live at once.  Times are milliseconds.                *)
(*                                                                         *)
(* A transaction is [kind, st, ...] with                                   *)
(*   kind  ci/cn client INVITE/other, si/sn server INVITE/other            *)
(*   tgt   the addresses left to use, the current one first                *)
(*   w     what it sends again: its request, or its last response ("")     *)
(*   iv,rt retransmission interval and when it is next due (-1: not)       *)
(*   et    when the transaction times out or is forgotten (-1: never)      *)
(*   born  serial number                                                   *)
(* Observed of every step: per transaction the times and texts of what was *)
(* sent ("send!" when the address was unreachable) and reported.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min(a, b) == IF a < b THEN a ELSE b
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, K) == [x \in DOMAIN f \ K |-> f[x]]
Range(q) == {q[k] : k \in 1..Len(q)}

InitState(cfg) == [cfg |-> cfg, now |-> 0, seq |-> 0, fail |-> {}, tx |-> << >>]

Rel(tr) == tr # "UDP"
Gone == [kind |-> "gone"]
At(t) == t.to \o "/" \o t.tr
Cid(b, m) == "c/" \o b \o "/" \o m
Sid(b, m) == "s/" \o b \o "/" \o m
Key(a) == IF a.m = "ACK" THEN Sid(a.b, "INVITE") ELSE Sid(a.b, a.m)
Tag(a) == ToString(a.code) \o ":" \o ToString(a.n)
IsC(x) == x.kind \in {"ci", "cn"}
IsS(x) == x.kind \in {"si", "sn"}
Res(x, o) == [x |-> x, o |-> o]
Then(r, o) == [r EXCEPT !.o = @ \o o]

---------------------------------------------------------------------------
(* Sending.  A client walks through its addresses until one is reachable;  *)
(* retransmission depends on the address it ends up with.  A server has    *)
(* only the address the request came from.                                 *)
First(x, F) == LET G == {k \in 1..Len(x.tgt) : x.tgt[k].to \notin F}
               IN IF G = {} THEN 0 ELSE CHOOSE k \in G : \A j \in G : k <= j
Tries(x, n) == [k \in 1..n |-> "send! " \o At(x.tgt[k]) \o " " \o x.w]
Send(x, F) ==
  LET k == First(x, F)
  IN IF k = 0 THEN Res(Gone, Tries(x, Len(x.tgt)) \o (IF IsC(x) THEN <<"failed", "end transport">> ELSE << >>))
     ELSE LET y == [x EXCEPT !.tgt = SubSeq(@, k, Len(@))]
          IN Res(y, Append(Tries(x, k - 1), "send " \o At(x.tgt[k]) \o " " \o x.w))

(* Timers.  T1, T2 and T4 are the configured ones.                         *)
Retrans(c, x, now) == IF Rel(x.tgt[1].tr) THEN [x EXCEPT !.rt = -1] ELSE [x EXCEPT !.rt = now + x.iv]
Armed(r, c, now) == IF r.x.kind = "gone" THEN r ELSE [r EXCEPT !.x = Retrans(c, r.x, now)]
Again(c, x, now, F) == Armed(Send([x EXCEPT !.iv = Min(2 * @, c.t2)], F), c, now)
Expire(x) == Res(Gone, IF x.st \in {"Calling", "Trying", "Ringing"} THEN <<"end timeout">> ELSE << >>)

(* Everything one transaction does until (and at) time `to`.               *)
Due(x) == IF x.rt # -1 /\ (x.et = -1 \/ x.rt < x.et) THEN x.rt ELSE x.et
RECURSIVE Run(_, _, _, _, _)
Run(c, x, F, from, to) ==
  IF x.kind = "gone" \/ Due(x) = -1 \/ Due(x) > to THEN [x |-> x, o |-> << >>]
  ELSE LET t == Due(x)
           r == IF t = x.et THEN Expire(x) ELSE Again(c, x, t, F)
           q == Run(c, r.x, F, from, to)
       IN [x |-> q.x, o |-> [k \in 1..Len(r.o) |-> [t |-> t - from, w |-> r.o[k]]] \o q.o]

---------------------------------------------------------------------------
(* Responses to client transactions.                                       *)
Answer(c, x, a, now) ==
  LET tag == Tag(a)
      at == At(x.tgt[1])
      ack == "ack " \o at \o " " \o tag
      wait(d) == [x EXCEPT !.st = "Completed", !.rt = -1, !.et = now + (IF Rel(c.tr0) THEN 0 ELSE d)]
  IN IF x.kind = "ci" THEN
       CASE a.code < 200 ->
              IF x.st = "Completed" THEN Res(x, << >>)
              ELSE Res([x EXCEPT !.st = "Ringing", !.rt = -1, !.et = -1],
                       <<"prov " \o tag>> \o (IF a.rel THEN <<"prack " \o at \o " " \o tag>> ELSE << >>))
         [] a.code \in 200..299 -> Res(Gone, <<"final " \o tag, "ack2xx " \o at \o " " \o tag>>)
         [] OTHER -> IF x.st = "Completed" THEN Res(x, <<ack>>)
                     ELSE Res(wait(32000), <<"final " \o tag, ack>>)
     ELSE IF x.st = "Completed" THEN Res(x, << >>)
          ELSE IF a.code < 200 THEN Res([x EXCEPT !.st = "Trying"], <<"prov " \o tag>>)
          ELSE Res(wait(c.t4), <<"final " \o tag>>)

(* What the user of a server transaction sends.                            *)
Reply(c, x, a, now, F) ==
  LET y == [x EXCEPT !.w = Tag(a)]
      r == Send(y, F)
      end == 64 * c.t1
  IN IF x.st # "Proceeding" THEN Res(x, << >>)
     ELSE IF a.op = "sendp" THEN r
     ELSE IF x.kind = "si" /\ a.code \in 200..299 THEN Res(Gone, r.o)
     ELSE IF r.x.kind = "gone" THEN r
     ELSE LET z == [r.x EXCEPT !.st = "Completed", !.iv = c.t1]
          IN IF x.kind = "si" THEN [r EXCEPT !.x = Retrans(c, [z EXCEPT !.et = now + end], now)]
             ELSE [r EXCEPT !.x = [z EXCEPT !.et = now + (IF Rel(c.tr0) THEN 0 ELSE end)]]
Acked(c, x, now) ==
  IF x.kind # "si" \/ x.st # "Completed" THEN Res(x, << >>)
  ELSE Res([x EXCEPT !.st = "Confirmed", !.rt = -1, !.et = now + (IF Rel(c.tr0) THEN 0 ELSE c.t4)], << >>)
Repeated(x, F) == IF x.st = "Confirmed" \/ x.w = "" THEN Res(x, << >>) ELSE Send(x, F)

---------------------------------------------------------------------------
NewC(s, a) == [kind |-> IF a.m = "INVITE" THEN "ci" ELSE "cn", st |-> IF a.m = "INVITE" THEN "Calling" ELSE "Trying",
               tgt |-> a.tgt, w |-> a.m \o ":" \o ToString(a.n), iv |-> s.cfg.t1, rt |-> -1,
               et |-> s.now + 64 * s.cfg.t1, born |-> s.seq]
NewS(s, a) == [kind |-> IF a.m = "INVITE" THEN "si" ELSE "sn", st |-> "Proceeding",
               tgt |-> <<[to |-> a.to, tr |-> a.tr]>>, w |-> "", iv |-> 0, rt |-> -1, et |-> -1, born |-> s.seq]
(* The side's oldest transaction when that side is full.                   *)
Full(s, client, max) ==
  LET I == {i \in DOMAIN s.tx : IsC(s.tx[i]) = client}
  IN IF Cardinality(I) < max \/ I = {} THEN {} ELSE {CHOOSE i \in I : \A j \in I : s.tx[i].born <= s.tx[j].born}

(* The transport a transaction's own wait times are derived from.          *)
With(s, x) == [tr0 |-> x.tgt[1].tr] @@ s.cfg
Zero(o) == [k \in 1..Len(o) |-> [t |-> 0, w |-> o[k]]]
Outs(f) == {[x |-> i, o |-> f[i]] : i \in {j \in DOMAIN f : f[j] # << >>}}
Obs(r, key, f) == [r |-> r, key |-> key, outs |-> Outs(f)]
Keep(tx, i, x) == IF x.kind = "gone" THEN Del(tx, {i}) ELSE Put(tx, i, x)

(* One transaction does r; then whatever of it is due at once.             *)
Done(s, i, r, rr, key, extra) ==
  LET q == Run(IF r.x.kind = "gone" THEN s.cfg ELSE With(s, r.x), r.x, s.fail, s.now, s.now)
  IN {[s |-> [s EXCEPT !.tx = Keep(@, i, q.x)],
       obs |-> Obs(rr, key, extra @@ (i :> (Zero(r.o) \o q.o)))]}
Same(s, rr, key) == {[s |-> s, obs |-> Obs(rr, key, << >>)]}

Start(s0, a) ==
  LET s1 == [s0 EXCEPT !.seq = @ + 1]
      i == Cid(a.b, a.m)
      V == Full(s1, TRUE, s1.cfg.maxc)
      s == [s1 EXCEPT !.tx = Del(@, V)]
      x == NewC(s, a)
      r == Armed(Send(x, s.fail), s.cfg, s.now)
  IN IF a.tgt = << >> THEN Same(s0, "refused", "")
     ELSE IF i \in DOMAIN s0.tx THEN {}          \* branches are not reused while in use
     ELSE Done(s, i, r, "ok", i, [v \in V |-> IF s1.tx[v].st = "Completed" THEN << >> ELSE Zero(<<"end limit">>)])

Request(s0, a) ==
  LET i == Key(a)
      s1 == [s0 EXCEPT !.seq = @ + 1]
      s == [s1 EXCEPT !.tx = Del(@, Full(s1, FALSE, s1.cfg.maxs))]
  IN IF a.m = "ACK" THEN
       IF i \in DOMAIN s0.tx THEN Done(s0, i, Acked(With(s0, s0.tx[i]), s0.tx[i], s0.now), "ok", i, << >>)
       ELSE Same(s0, "ok", Sid(a.b, "ACK"))
     ELSE IF i \in DOMAIN s0.tx THEN Done(s0, i, Repeated(s0.tx[i], s0.fail), "ok", i, << >>)
     ELSE Done(s, i, Res(NewS(s, a), << >>), "ok", i, << >>)

(* An ACK that finds the INVITE unanswered says nothing: either answer.    *)
Ack(s, a) ==
  LET i == Key(a)
  IN IF i \notin DOMAIN s.tx THEN Same(s, "no", "")
     ELSE UNION {Done(s, i, Acked(With(s, s.tx[i]), s.tx[i], s.now), rr, "", << >>) :
                 rr \in IF s.tx[i].st = "Proceeding" THEN {"yes", "no"} ELSE {"yes"}}

Wait(s, ms) ==
  LET q == [i \in DOMAIN s.tx |-> Run(With(s, s.tx[i]), s.tx[i], s.fail, s.now, s.now + ms)]
      live == {i \in DOMAIN q : q[i].x.kind # "gone"}
  IN {[s |-> [s EXCEPT !.now = @ + ms, !.tx = [i \in live |-> q[i].x]],
       obs |-> Obs("ok", "", [i \in DOMAIN q |-> q[i].o])]}

Post(s, a) ==
  CASE a.op = "start" -> Start(s, a)
    [] a.op = "resp" ->
         LET i == Cid(a.b, a.m)
         IN IF i \in DOMAIN s.tx THEN Done(s, i, Answer(With(s, s.tx[i]), s.tx[i], a, s.now), "ok", "", << >>)
            ELSE Same(s, "ok", "")
    [] a.op = "req" -> Request(s, a)
    [] a.op \in {"sendp", "sendf"} ->
         LET i == Sid(a.b, a.m)
         IN IF i \in DOMAIN s.tx THEN Done(s, i, Reply(With(s, s.tx[i]), s.tx[i], a, s.now, s.fail), "ok", "", << >>)
            ELSE Same(s, "ok", "")
    [] a.op = "ack" -> Ack(s, a)
    [] a.op = "wait" -> Wait(s, a.ms)
    [] a.op = "fail" -> {[s |-> [s EXCEPT !.fail = IF a.on THEN @ \cup {a.to} ELSE @ \ {a.to}],
                          obs |-> Obs("ok", "", << >>)]}
    [] OTHER -> {}

Norm(e) == IF e.obs.r \in {"PANIC", "HANG"} THEN e.obs
           ELSE [r |-> e.obs.r, key |-> e.obs.key, outs |-> Range(e.obs.outs)]

---------------------------------------------------------------------------
(* What must hold of every state.                                          *)
Bounded(s) == \A i \in DOMAIN s.tx :
                LET x == s.tx[i]
                IN (x.st \in {"Calling", "Trying", "Completed", "Confirmed"}) => x.et > s.now /\ x.et <= s.now + 32000 + 64 * s.cfg.t1
OnlyUnreliable(s) == \A i \in DOMAIN s.tx : s.tx[i].rt # -1 => s.tx[i].tgt[1].tr = "UDP"
Limits(s) == /\ Cardinality({i \in DOMAIN s.tx : IsC(s.tx[i])}) <= s.cfg.maxc
             /\ Cardinality({i \in DOMAIN s.tx : IsS(s.tx[i])}) <= s.cfg.maxs
Quiet(s) == \A i \in DOMAIN s.tx : s.tx[i].st \in {"Ringing", "Confirmed"} => s.tx[i].rt = -1
StateOK(s) == Bounded(s) /\ OnlyUnreliable(s) /\ Limits(s) /\ Quiet(s)
=============================================================================
