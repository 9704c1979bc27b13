---------------------------- MODULE RateLimit ----------------------------
(***************************************************************************)
(* A set of named token-bucket rate limiters with per-key buckets, idle    *)
(* clean-up, capacity limit and accounting.  Time is in milliseconds.      *)
(*                                                                         *)
(* cfg: name -> [max, win, burst, idle, on, cap]: requests per window of   *)
(* win seconds, bucket capacity, idle seconds, enabled, tracked-key limit. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
Sum(f) == LET RECURSIVE Go(_)
              Go(D) == IF D = {} THEN 0 ELSE LET d == CHOOSE x \in D : TRUE IN f[d] + Go(D \ {d})
          IN Go(DOMAIN f)

CleanupEvery == 1024          \* automatic clean-up after this many checks
WallStart    == 1700000000    \* unix seconds at time 0
Never        == -1

(* One token per interval: the window is split evenly over its requests.   *)
Interval(c) == LET i == IF c.max = 0 THEN 1 ELSE (c.win * 1000) \div c.max IN IF i = 0 THEN 1 ELSE i

NewLim(c) ==
  [cfg |-> c,
   b   |-> << >>,             \* key -> [tok, lr, la, blk, lw]
   f   |-> << >>,             \* groups of filler keys [n, la]
   m   |-> [tot |-> 0, all |-> 0, blk |-> 0, run |-> 0],
   uw  |-> 0]                 \* last limiter-wide warning, unix seconds
InitState(cfg) == [now |-> 0, L |-> [n \in DOMAIN cfg |-> NewLim(cfg[n])]]

(* Refill happens lazily.  Whole elapsed intervals become tokens; the      *)
(* started interval is kept (lr stays on the key's own grid) unless the    *)
(* bucket is full, when there is nothing left to accumulate.               *)
Refilled(c, now, k) ==
  LET n == (now - k.lr) \div Interval(c) IN
  IF c.burst = 0 \/ n = 0 THEN k
  ELSE [k EXCEPT !.tok = Min(c.burst, @ + n),
                 !.lr  = IF k.tok + n >= c.burst THEN now ELSE @ + n * Interval(c)]

NewBucket(c, now) == [tok |-> c.burst, lr |-> now, la |-> now, blk |-> 0, lw |-> Never]
Has(l, key) == key \in DOMAIN l.b
(* The bucket of a key as the next check will see it (fresh if unknown). *)
Bucket(l, now, key) ==
  IF Has(l, key) THEN Refilled(l.cfg, now, l.b[key]) ELSE NewBucket(l.cfg, now)

FillN(l) == Sum([i \in DOMAIN l.f |-> l.f[i].n])
Count(l) == Cardinality(DOMAIN l.b) + FillN(l)
Add(m, tot, all) == [m EXCEPT !.tot = @ + tot, !.all = @ + all, !.blk = @ + tot - all]

(* Keys unused for longer than the idle time are forgotten.                *)
Idle(l, now, la) == now - la > l.cfg.idle * 1000
IdleKeys(l, now) == {k \in DOMAIN l.b : Idle(l, now, l.b[k].la)}
Purge(l, now) == [l EXCEPT !.b = Del(@, IdleKeys(l, now)),
                           !.f = SelectSeq(@, LAMBDA g : ~Idle(l, now, g.la)),
                           !.m.run = @ + 1]

(* n checks of one key at the same instant, in sequence.  The clean-up due *)
(* at every 1024th check runs before that check.                           *)
Due(l, n) == (l.m.tot + n) \div CleanupEvery > l.m.tot \div CleanupEvery
Runs(l, n) == (l.m.tot + n) \div CleanupEvery - l.m.tot \div CleanupEvery

Take(l, now, key, n) ==        \* n checks, no clean-up before the first
  IF ~Has(l, key) /\ Count(l) >= l.cfg.cap
  THEN [l |-> [l EXCEPT !.m = Add(@, n, 0)], all |-> 0]
  ELSE LET k  == Bucket(l, now, key)
           a  == Min(n, k.tok)
       IN [l |-> [l EXCEPT !.b = Put(@, key, [k EXCEPT !.tok = @ - a, !.la = now,
                                              !.blk = @ + n - a]),
                           !.m = Add(@, n, a)],
           all |-> a]
Check(l, now, key, n) ==
  IF ~l.cfg.on THEN [l |-> [l EXCEPT !.m = Add(@, n, n)], all |-> n]
  ELSE IF ~Due(l, n) THEN Take(l, now, key, n)
  ELSE LET pre  == CleanupEvery - 1 - (l.m.tot % CleanupEvery)   \* checks before the clean-up
           one  == IF pre = 0 THEN [l |-> l, all |-> 0] ELSE Take(l, now, key, pre)
           l2   == [Purge(one.l, now) EXCEPT !.m.run = l.m.run + Runs(l, n)]
           two  == Take(l2, now, key, n - pre)
       IN [l |-> two.l, all |-> one.all + two.all]

(* n checks of n keys never seen before *)
Fill(l, now, n) ==
  IF ~l.cfg.on THEN [l |-> [l EXCEPT !.m = Add(@, n, n)], all |-> n]
  ELSE LET Go(x, k) == LET a == IF x.cfg.burst = 0 THEN 0 ELSE 1
                           g == Min(k, Max(0, x.cfg.cap - Count(x)))
                       IN [l |-> [x EXCEPT !.f = IF g = 0 THEN @ ELSE Append(@, [n |-> g, la |-> now]),
                                           !.m = Add(@, k, g * a)], all |-> g * a]
       IN IF ~Due(l, n) THEN Go(l, n)
          ELSE LET pre == CleanupEvery - 1 - (l.m.tot % CleanupEvery)
                   one == Go(l, pre)
                   l2  == [Purge(one.l, now) EXCEPT !.m.run = l.m.run + Runs(l, n)]
                   two == Go(l2, n - pre)
               IN [l |-> two.l, all |-> one.all + two.all]

(* Checks of several keys by several threads: per key they take effect in  *)
(* some order, and at one instant every order has the same outcome.        *)
RECURSIVE Storm(_, _, _, _)
Storm(l, now, ks, n) ==
  IF ks = << >> THEN [l |-> l, all |-> << >>]
  ELSE LET one  == Check(l, now, Head(ks), n)
           rest == Storm(one.l, now, Tail(ks), n)
       IN [l |-> rest.l, all |-> << one.all >> \o rest.all]

R(x) == [r |-> x]
N(x) == [r |-> "n", n |-> x]

Wait(l, k) == IF l.cfg.burst = 0 THEN 0
              ELSE ((l.cfg.burst - k.tok) * Interval(l.cfg)) \div 1000

(* One operation on one limiter: set of [l, obs] *)
Op(l, now, a) ==
  CASE a.op = "check" -> LET c == Check(l, now, a.k, 1) IN
                           {[l |-> c.l, obs |-> R(IF c.all = 1 THEN "allow" ELSE "block")]}
    [] a.op = "checks" -> LET c == Check(l, now, a.k, a.n) IN {[l |-> c.l, obs |-> N(c.all)]}
    [] a.op = "fill"  -> LET c == Fill(l, now, a.n) IN {[l |-> c.l, obs |-> N(c.all)]}
    [] a.op = "storm" -> LET c == Storm(l, now, a.ks, a.n) IN
                           {[l |-> c.l, obs |-> [r |-> "storm", c |-> c.all]]}
    \* an unusable key (over 256 bytes, control characters) is blocked
    [] a.op = "bad"   -> {[l |-> [l EXCEPT !.m = Add(@, 1, 0)], obs |-> R("block")]}
    \* queries consume nothing
    [] a.op = "remaining" ->
         IF ~Has(l, a.k) THEN {[l |-> l, obs |-> R("none")]}
         ELSE LET k == Bucket(l, now, a.k) IN
              {[l |-> [l EXCEPT !.b[a.k] = k], obs |-> N(k.tok)]}
    [] a.op = "info" ->
         IF ~l.cfg.on \/ ~Has(l, a.k) THEN {[l |-> l, obs |-> R("none")]}
         ELSE LET k == Bucket(l, now, a.k) IN
              {[l |-> [l EXCEPT !.b[a.k] = k],
                obs |-> [r |-> "info", limit |-> l.cfg.max, n |-> k.tok, wait |-> Wait(l, k),
                         at |-> WallStart + (now \div 1000) + Wait(l, k)]]}
    \* per-key log throttle; keys without a bucket share one
    [] a.op = "log" ->
         IF Has(l, a.k)
         THEN LET k == l.b[a.k] IN
              IF k.lw = Never \/ now - k.lw >= a.min * 1000
              THEN {[l |-> [l EXCEPT !.b[a.k].lw = now], obs |-> N(k.blk)]}
              ELSE {[l |-> l, obs |-> R("none")]}
         ELSE LET w == WallStart + (now \div 1000) IN
              IF w - l.uw >= Max(1, a.min)
              THEN {[l |-> [l EXCEPT !.uw = w], obs |-> N(0)]}
              ELSE {[l |-> l, obs |-> R("none")]}
    [] a.op = "cleanup" ->
         IF ~l.cfg.on THEN {[l |-> [l EXCEPT !.m.run = @ + 1], obs |-> N(0)]}
         ELSE {[l |-> Purge(l, now), obs |-> N(Count(l) - Count(Purge(l, now)))]}
    [] a.op = "reset" -> {[l |-> [l EXCEPT !.b = Del(@, {a.k})], obs |-> R("ok")]}
    [] a.op = "clear" -> {[l |-> [l EXCEPT !.b = << >>, !.f = << >>], obs |-> R("ok")]}
    [] a.op = "count" -> {[l |-> l, obs |-> N(Count(l))]}
    [] a.op = "metrics" -> {[l |-> l, obs |-> [r |-> "m", m |-> l.m]]}

Post(s, a) ==
  CASE a.op = "tick" -> {[s |-> [s EXCEPT !.now = @ + a.dt], obs |-> R("ok")]}
    [] a.op = "cleanup_all" ->
         LET L2 == [n \in DOMAIN s.L |-> IF s.L[n].cfg.on THEN Purge(s.L[n], s.now)
                                         ELSE [s.L[n] EXCEPT !.m.run = @ + 1]]
         IN {[s |-> [s EXCEPT !.L = L2],
              obs |-> N(Sum([n \in DOMAIN s.L |-> Count(s.L[n]) - Count(L2[n])]))]}
    [] OTHER -> {[s |-> [s EXCEPT !.L[a.l] = p.l], obs |-> p.obs] : p \in Op(s.L[a.l], s.now, a)}
Norm(e) == e.obs

(* What the code can never show, whatever the history. *)
LimOK(l, now) ==
  /\ \A k \in DOMAIN l.b : l.b[k].tok \in 0..l.cfg.burst /\ l.b[k].lr <= now
  /\ l.m.tot = l.m.all + l.m.blk
  /\ Count(l) <= l.cfg.cap
StateOK(s) == \A n \in DOMAIN s.L : LimOK(s.L[n], s.now)
===========================================================================
