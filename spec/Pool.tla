-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* A pool of connections to peers (RFC 5923 reuse, RFC 6223 keep-alives):  *)
(* what is accepted for a peer goes over the one connection to it, which   *)
(* is opened when needed, and at most cfg.max are kept, the least recently *)
(* used being given up for new ones.                                       *)
(* State: now (ms), up: peers that listen, e: function from peers to the   *)
(* kept connection [c, used, wrote] (c its number among those of the peer, *)
(* used when last asked for, wrote when the ping period began), cnt:       *)
(* connections so far, by peer.                                            *)
(***************************************************************************)
EXTENDS Text

PING == "\r\n\r\n"
InitState(cfg) == [cfg |-> cfg, now |-> 0, up |-> {}, known |-> {}, e |-> << >>, cnt |-> << >>]
Kept(s) == DOMAIN s.e
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, K) == [x \in DOMAIN f \ K |-> f[x]]
Cnt(s, p) == IF p \in DOMAIN s.cnt THEN s.cnt[p] ELSE 0
Idle(s, p) == s.now - s.e[p].used > s.cfg.idle * 1000
(* what giving up the connections to P shows *)
Shut(s, P) == {[p |-> p, c |-> s.e[p].c] : p \in P}
Told(P) == {[p |-> p, k |-> "closed"] : p \in P}
Obs(r, s, seen, shut, ev) == r @@ [seen |-> seen, shut |-> shut, ev |-> ev, n |-> Cardinality(Kept(s)), empty |-> Kept(s) = {}]
Out(r, s, seen, shut, ev) == [s |-> s, obs |-> Obs(r, s, seen, shut, ev)]

RECURSIVE Glue(_), Perms(_), Rep(_, _)
Glue(xs) == IF xs = << >> THEN "" ELSE Head(xs) \o Glue(Tail(xs))
Without(xs, i) == SubSeq(xs, 1, i - 1) \o SubSeq(xs, i + 1, Len(xs))
Perms(xs) == IF Len(xs) <= 1 THEN {xs} ELSE UNION {{<<xs[i]>> \o r : r \in Perms(Without(xs, i))} : i \in DOMAIN xs}
Orders(a) == IF a.conc THEN {Glue(q) : q \in Perms(a.xs)} ELSE {Glue(a.xs)}
Rep(x, n) == IF n = 0 THEN "" ELSE x \o Rep(x, n - 1)

(* the connections given up to make room for one more: none while there is room; *)
(* else the idle ones, else a tenth of the limit, the least recently used ones   *)
Victims(s) ==
  LET m == s.cfg.max
      idle == {p \in Kept(s) : Idle(s, p)}
      k == IF m \div 10 > 1 THEN m \div 10 ELSE 1
  IN IF Cardinality(Kept(s)) < m THEN {{}}
     ELSE IF idle # {} THEN {idle}
     ELSE {P \in SUBSET Kept(s) : Cardinality(P) = (IF k < Cardinality(Kept(s)) THEN k ELSE Cardinality(Kept(s)))
                                   /\ \A p \in P, q \in Kept(s) \ P : s.e[p].used <= s.e[q].used}
Sent(a, ok) == [r |-> "sent", ok |-> [i \in DOMAIN a.xs |-> ok]]
(* pings that fall into the time from s.now to s.now + d *)
Pings(s, p, d) == IF s.cfg.ka = 0 THEN 0 ELSE (s.now + d - s.e[p].wrote) \div s.cfg.ka - (s.now - s.e[p].wrote) \div s.cfg.ka

Post(s, a) ==
  CASE a.op = "up" -> (LET t == [s EXCEPT !.up = @ \cup {a.p}, !.known = @ \cup {a.p}] IN {Out([r |-> "up"], t, {}, {}, {})})
    [] a.op = "down" -> (LET t == [s EXCEPT !.up = @ \ {a.p}] IN {Out([r |-> "down"], t, {}, {}, {})})
    [] a.op = "send" ->
         (IF a.p \notin s.known THEN {Out([r |-> "none"], s, {}, {}, {})}
          ELSE IF a.p \in Kept(s) THEN
            LET t == [s EXCEPT !.e[a.p].used = s.now, !.e[a.p].wrote = s.now]
            IN {Out(Sent(a, TRUE), t, {[p |-> a.p, c |-> s.e[a.p].c, x |-> x]}, {}, {}) : x \in Orders(a)}
          ELSE IF a.p \notin s.up THEN
            {LET t == [s EXCEPT !.e = Drop(@, P)] IN Out(Sent(a, FALSE), t, {}, Shut(s, P), Told(P)) : P \in Victims(s) \cup {{}}}
          ELSE IF s.cfg.max = 0 THEN {Out(Sent(a, FALSE), s, {}, {}, {})}
          ELSE LET c == Cnt(s, a.p) + 1 IN
            {LET t == [s EXCEPT !.e = Put(Drop(@, P), a.p, [c |-> c, used |-> s.now, wrote |-> s.now]), !.cnt = Put(@, a.p, c)]
             IN Out(Sent(a, TRUE), t, {[p |-> a.p, c |-> c, x |-> x]}, Shut(s, P), IF a.conc THEN {} ELSE Told(P)) : P \in Victims(s), x \in Orders(a)})
    [] a.op = "close" ->         \* the peer closes its connection
         (IF a.p \notin Kept(s) THEN {Out([r |-> "none"], s, {}, {}, {})}
          ELSE LET t == [s EXCEPT !.e = Drop(@, {a.p})] IN {Out([r |-> "close"], t, {}, Shut(s, {a.p}), Told({a.p}))})
    [] a.op = "wait" ->          \* a.n seconds
         (LET d == a.n * 1000
              t == [s EXCEPT !.now = @ + d]
              P == {p \in Kept(s) : Pings(s, p, d) > 0}
          IN {Out([r |-> "waited"], t, {[p |-> p, c |-> s.e[p].c, x |-> Rep(PING, Pings(s, p, d))] : p \in P}, {}, {})})
    [] a.op = "clean" ->
         (LET P == {p \in Kept(s) : Idle(s, p)}
              t == [s EXCEPT !.e = Drop(@, P)]
          IN {Out([r |-> "clean", k |-> Cardinality(P)], t, {}, Shut(s, P), Told(P))})
    [] a.op = "stall" ->         \* a.p does not read while much is sent to it; others are served meanwhile
         (IF a.p \notin Kept(s) \/ a.q \notin Kept(s) THEN {Out([r |-> "none"], s, {}, {}, {})}
          ELSE LET t == [s EXCEPT !.e = [p \in DOMAIN @ |-> IF p \in {a.p, a.q} THEN [@[p] EXCEPT !.used = s.now, !.wrote = s.now] ELSE @[p]]]
               IN {Out([r |-> "stall", ok |-> TRUE, other |-> TRUE, whole |-> TRUE], t, IF a.q = a.p THEN {} ELSE {[p |-> a.q, c |-> s.e[a.q].c, x |-> "other"]}, {}, {})})

(* events of the losers of a race to open a connection are not judged *)
Norm(e) == IF e.obs.r = "blocked" THEN e.obs
           ELSE [e.obs EXCEPT !.seen = Range(@), !.shut = Range(@), !.ev = IF e.op = "send" /\ e.conc THEN {} ELSE Range(@)]
StateOK(s) ==
  /\ Cardinality(Kept(s)) <= s.cfg.max
  /\ Kept(s) \subseteq s.known
  /\ \A p \in Kept(s) : s.e[p].c = s.cnt[p] /\ s.e[p].used <= s.now /\ s.e[p].wrote <= s.now
=============================================================================
