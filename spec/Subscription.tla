---------------------------- MODULE Subscription ----------------------------
(***************************************************************************)
(* Event subscriptions (RFC 6665) and their table.  Message records as in  *)
(* Dialog, with event ("" = none) and exp (Expires; -1 none, -2 garbage).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min(a, b) == IF a < b THEN a ELSE b
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Range(q) == {q[k] : k \in 1..Len(q)}

MaxSubs == 10000
DefaultExpires == 3600

NewSub(a) ==
  LET q == a.req
      w == a.resp
      exp == IF w.exp # -1 THEN w.exp
             ELSE IF a.notifier /\ q.exp # -1 THEN q.exp ELSE DefaultExpires
  IN IF ~( /\ w.code \in 200..299
           /\ q.call # "" /\ q.ft \notin {"", "!"} /\ w.tt \notin {"", "!"} /\ q.event # ""
           /\ w.ct # "" /\ q.cseq >= 1 /\ exp >= 0) THEN << >>
     ELSE << [id |-> <<q.call, q.ft, w.tt, q.event>>, st |-> "active", ct |-> w.ct, exp |-> exp,
              lc |-> q.cseq, rc |-> 0, lu |-> "sip:l@example.com", ru |-> "sip:r@example.com"] >>

InitState(cfg) == [s |-> << >>, m |-> << >>, f |-> 0]   \* slots, table, filler entries
R(x) == [r |-> x]
N(x) == [r |-> "n", n |-> x]
To(s, o) == {[s |-> s, obs |-> o]}
Some(x) == [r |-> "some", s |-> x]
Opt(f, k) == IF k \in DOMAIN f THEN Some(f[k]) ELSE R("none")
Count(st) == Cardinality(DOMAIN st.m) + st.f
List(st, I) == [r |-> "list", n |-> Cardinality(I), v |-> {st.m[i] : i \in I}]
PartOK(n, max) == (n >= 1 /\ n <= max) \/ (n = -2 /\ 200 <= max)
SlotOp(st, a, x) ==
  CASE a.op = "next" -> To([st EXCEPT !.s[a.x].lc = @ + 1], N(x.lc + 1))
    [] a.op = "state" ->
         LET y == IF x.st = "terminated" THEN x ELSE [x EXCEPT !.st = a.st]
         IN To([st EXCEPT !.s[a.x] = y], Some(y))
    [] a.op = "expires" -> LET y == [x EXCEPT !.exp = a.n] IN To([st EXCEPT !.s[a.x] = y], Some(y))
    [] a.op = "put" ->
         IF x.id \in DOMAIN st.m \/ Count(st) < MaxSubs THEN To([st EXCEPT !.m = Put(@, x.id, x)], R("ok"))
         ELSE To(st, R("full"))
Post(st, a) ==
  CASE a.op \in {"next", "state", "expires", "put"} ->
         IF a.x \in DOMAIN st.s THEN SlotOp(st, a, st.s[a.x]) ELSE To(st, R("nosub"))
    [] a.op = "new" ->
         LET n == NewSub(a)
         IN IF n = << >> THEN To([st EXCEPT !.s = Del(@, a.x)], R("none"))
            ELSE To([st EXCEPT !.s = Put(@, a.x, n[1])], Some(n[1]))
    [] a.op = "sid" ->
         LET q == a.req IN
         To(st, [r |-> "ids", v |-> IF q.call # "" /\ q.ft \notin {"", "!"} /\ q.tt \notin {"", "!"} /\ q.event # ""
                                    THEN <<q.call, q.ft, q.tt, q.event>> ELSE << >>])
    [] a.op = "newid" ->
         LET ok == /\ PartOK(a.c, 256) /\ PartOK(a.f, 128) /\ PartOK(a.t, 128) /\ PartOK(a.e, 64)
                   /\ "id" \in DOMAIN a => a.id = 0 \/ PartOK(a.id, 128)
         IN To(st, R(IF ok THEN "ok" ELSE "refused"))
    [] a.op = "get" -> To(st, Opt(st.m, a.id))
    [] a.op = "load" ->
         To([st EXCEPT !.s = IF a.id \in DOMAIN st.m THEN Put(@, a.x, st.m[a.id]) ELSE Del(@, a.x)], Opt(st.m, a.id))
    [] a.op = "rm" -> To([st EXCEPT !.m = Del(@, a.id)], Opt(st.m, a.id))
    [] a.op = "all" -> To(st, [List(st, DOMAIN st.m) EXCEPT !.n = Count(st)])
    [] a.op = "byev" -> To(st, List(st, {i \in DOMAIN st.m : i[4] = a.event}))
    [] a.op = "clean" ->
         LET T == {i \in DOMAIN st.m : st.m[i].st = "terminated"}
         IN To([st EXCEPT !.m = [i \in DOMAIN @ \ T |-> @[i]]], N(Cardinality(T)))
    [] a.op \in {"fill", "storm"} ->
         LET k == Min(IF a.op = "fill" THEN a.n ELSE 8 * (a.n \div 8), MaxSubs - Count(st))
         IN To([st EXCEPT !.f = @ + k], N(k))
Norm(e) == IF e.obs.r = "list" THEN [r |-> "list", n |-> e.obs.n, v |-> Range(e.obs.v)] ELSE e.obs
StateOK(st) == Count(st) <= MaxSubs /\ \A i \in DOMAIN st.m : st.m[i].id = i
===========================================================================
