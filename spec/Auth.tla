------------------------------ MODULE Auth ------------------------------
(***************************************************************************)
(* Digest authentication: a server that challenges and verifies, clients   *)
(* that sign, and the nonce table behind the server.  Time in ms.          *)
(*                                                                         *)
(* cfg: [alg, qop, proxy, ttl, age, users (seq of [u, p]), rl (attempts    *)
(*       allowed per source, 0 = unlimited), max (capacity of the separate *)
(*       nonce table exercised by the m_ operations)]                      *)
(*                                                                         *)
(* A hand-made credential is described by what differs from a correct one: *)
(* a.muts lists deviations; those in Benign do not change its meaning.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Ran(q) == {q[i] : i \in DOMAIN q}

AuthMax == 10000      \* capacity of the authenticator's own table
NcMax   == 1000000
NcJump  == 1000

Benign(cfg) == {"alg-missing", "alg-case", "extra", "scheme-case", "qop-quoted", "nc-short", "spaces"}
               \cup IF cfg.qop = "auth" THEN {"body-signed"} ELSE {}

(*--------------------------- nonce table ---------------------------------*)
NewTab(max, ttl, age) == [n |-> << >>, f |-> << >>, top |-> 0, max |-> max, ttl |-> ttl, age |-> age]
SumF(f) == LET RECURSIVE Go(_)
               Go(i) == IF i > Len(f) THEN 0 ELSE f[i].n + Go(i + 1)
           IN Go(1)
Count(t) == Cardinality(DOMAIN t.n) + SumF(t.f)
Fresh(t, now, at) == now - at <= t.ttl
Clean(t, now) == [t EXCEPT !.n = [i \in {j \in DOMAIN @ : Fresh(t, now, @[j].at)} |-> @[i]],
                           !.f = SelectSeq(@, LAMBDA g : Fresh(t, now, g.at))]
(* the k oldest entries go; among equally old ones any may be chosen *)
Older(t, c) == Cardinality({i \in DOMAIN t.n : t.n[i].at < c}) + SumF(SelectSeq(t.f, LAMBDA g : g.at < c))
Evicted(t, k) ==
  IF k >= Count(t) THEN {[t EXCEPT !.n = << >>, !.f = << >>]}
  ELSE LET times == {t.n[i].at : i \in DOMAIN t.n} \cup {t.f[i].at : i \in DOMAIN t.f}
           c  == CHOOSE x \in times : Older(t, x) < k /\ \A y \in times : Older(t, y) < k => y <= x
           r  == k - Older(t, c)
           TT == {i \in DOMAIN t.n : t.n[i].at = c}
           FT == SumF(SelectSeq(t.f, LAMBDA g : g.at = c))
           keepF(m) == [i \in DOMAIN SelectSeq(t.f, LAMBDA g : g.at >= c) |->
                          LET g == SelectSeq(t.f, LAMBDA g : g.at >= c)[i]
                          IN IF g.at = c THEN [g EXCEPT !.n = @ - m] ELSE g]
       IN {[t EXCEPT !.n = [i \in {j \in DOMAIN @ : @[j].at >= c} \ X |-> @[i]],
                     !.f = keepF(r - Cardinality(X))]
            : X \in {Y \in SUBSET TT : Cardinality(Y) <= r /\ r - Cardinality(Y) <= FT}}
Room(t, now) ==
  IF Count(t) < t.max THEN {t}
  ELSE LET c == Clean(t, now)
       IN IF Count(c) < c.max THEN {c}
          ELSE Evicted(c, IF c.max \div 10 = 0 THEN 1 ELSE c.max \div 10)
(* a new nonce; its number is t.top + 1 *)
Issue(t, now) ==
  {[x EXCEPT !.top = @ + 1, !.n = Put(@, x.top + 1, [at |-> now, nc |-> 0, req |-> << >>, used |-> now])]
     : x \in Room(t, now)}
(* k nonces nobody uses *)
RECURSIVE IssueN(_, _, _)
IssueN(t, now, k) ==
  IF k = 0 THEN t
  ELSE LET x == CHOOSE y \in Room(t, now) : TRUE
           g == IF k < x.max - Count(x) THEN k ELSE x.max - Count(x)
       IN IssueN([x EXCEPT !.f = Append(@, [n |-> g, at |-> now])], now, k - g)

(* would count nc of nonce n be accepted for request req = <<method, uri, body>> *)
Valid(t, now, n) == n \in DOMAIN t.n /\ Fresh(t, now, t.n[n].at)
Lapsed(t, now, n) == Valid(t, now, n) /\ t.n[n].nc > 0 /\ now - t.n[n].used > t.age
Accepts(t, now, n, nc, req) ==
  /\ Valid(t, now, n) /\ ~Lapsed(t, now, n)
  /\ \/ nc > t.n[n].nc
     \/ nc = t.n[n].nc /\ t.n[n].req \in {<< >>, req}
Use(t, now, n, nc, req) ==
  [t EXCEPT !.n[n] = [@ EXCEPT !.nc = nc, !.req = req, !.used = now]]

(*----------------------------- server ------------------------------------*)
InitState(cfg) ==
  [now |-> 0, cfg |-> cfg, t |-> NewTab(AuthMax, cfg.ttl, cfg.age),
   m |-> NewTab(cfg.max, cfg.ttl, cfg.age),
   sent |-> << >>,           \* credentials seen or signed so far
   cl |-> << >>,             \* client -> [n, nc]: nonce last signed under, its count
   rl |-> << >>]             \* source -> attempts counted

Pass(cfg, u) == LET I == {i \in DOMAIN cfg.users : cfg.users[i].u = u}
                IN IF I = {} THEN "" ELSE cfg.users[CHOOSE i \in I : \A j \in I : i <= j].p
Known(cfg, u) == \E i \in DOMAIN cfg.users : cfg.users[i].u = u

(* credential c = [user, pass, method, uri, body (what was signed), n, nc, muts] *)
Req(a) == <<a.method, a.uri, a.body>>
(* everything that can be judged before the password is consulted *)
Plausible(s, c, a) ==
  /\ c.uri = a.uri
  /\ \A x \in Ran(c.muts) : x \in Benign(s.cfg) \cup {"body-signed", "resp-flip", "resp-upper", "resp-trunc", "resp-empty",
        "resp-long", "alg-lie", "qop-lie", "uri-signed", "method-signed", "nonce-signed", "cn-signed", "nc-signed",
        "user-signed", "realm-signed"}
  /\ c.nc <= NcMax
  /\ c.n \in DOMAIN s.t.n => c.nc <= s.t.n[c.n].nc + NcJump
  /\ Accepts(s.t, s.now, c.n, c.nc, Req(a))
Proof(s, c, a) ==
  /\ \A x \in Ran(c.muts) : x \in Benign(s.cfg)
  /\ Known(s.cfg, c.user) /\ c.pass = Pass(s.cfg, c.user)
  /\ c.method = a.method
  /\ s.cfg.qop = "auth-int" => c.body = a.body

Limited(s, src) == s.cfg.rl > 0 /\ src # "" /\ Get(s.rl, src, 0) >= s.cfg.rl
Counted(s, src) == IF s.cfg.rl > 0 /\ src # "" THEN [s EXCEPT !.rl = Put(@, src, Get(@, src, 0) + 1)] ELSE s

R(x) == [r |-> x]
Verify(s, c, a) ==
  IF Limited(s, a.src) THEN [s |-> s, obs |-> R("no")]
  ELSE LET s1 == Counted(s, a.src)
       IN IF Plausible(s, c, a) /\ Proof(s, c, a)
          THEN [s |-> [s1 EXCEPT !.t = Use(@, s.now, c.n, c.nc, Req(a))], obs |-> R("ok")]
          ELSE [s |-> s1, obs |-> R("no")]

Cred(a) == [user |-> a.user, pass |-> a.pass, method |-> a.method, uri |-> a.uri, body |-> a.body,
            n |-> a.n, nc |-> a.nc, muts |-> a.muts]

Post(s, a) ==
  CASE a.op = "tick" -> {[s |-> [s EXCEPT !.now = @ + a.dt], obs |-> R("ok")]}
    [] a.op = "chal" ->
         {[s |-> [s EXCEPT !.t = x],
           obs |-> [r |-> "chal", code |-> IF s.cfg.proxy THEN 407 ELSE 401, params |-> TRUE,
                    stale |-> a.stale, fresh |-> TRUE, copied |-> TRUE,
                    totag |-> IF a.tag THEN "kept" ELSE "new"]] : x \in Issue(s.t, s.now)}
    [] a.op = "fill" -> {[s |-> [s EXCEPT !.t = IssueN(@, s.now, a.k)], obs |-> R("ok")]}
    [] a.op = "count" -> {[s |-> s, obs |-> [r |-> "n", n |-> Count(s.t)]]}
    [] a.op = "attempt" ->
         LET c == Cred(a)
             p == Verify(s, c, a)
         IN {[s |-> [p.s EXCEPT !.sent = Append(@, c)], obs |-> p.obs]}
    \* a client signs; the count starts at 1 with every new nonce
    [] a.op = "sign" ->
         LET last == Get(s.cl, a.c, [n |-> 0, nc |-> 0])
             nc == IF last.n = a.n THEN last.nc + 1 ELSE 1
             c == [user |-> a.user, pass |-> a.pass, method |-> a.method, uri |-> a.uri, body |-> a.body,
                   n |-> a.n, nc |-> nc, muts |-> << >>]
         IN {[s |-> [s EXCEPT !.cl = Put(@, a.c, [n |-> a.n, nc |-> nc]), !.sent = Append(@, c)],
              obs |-> [r |-> "signed", nc |-> nc, good |-> TRUE]]}
    [] a.op = "skip" -> \* the client signs k requests that are never sent
         LET last == Get(s.cl, a.c, [n |-> 0, nc |-> 0])
             nc == (IF last.n = a.n THEN last.nc ELSE 0) + a.k
         IN {[s |-> [s EXCEPT !.cl = Put(@, a.c, [n |-> a.n, nc |-> nc])], obs |-> R("ok")]}
    \* recorded credentials are presented (again), with this request
    [] a.op = "send" -> LET p == Verify(s, s.sent[a.k], a) IN {p}
    [] a.op = "info" ->
         LET c == s.sent[a.k]
             some == Plausible(s, c, a) /\ Known(s.cfg, c.user)
         IN {[s |-> s,
              obs |-> IF ~some THEN R("none")
                      ELSE [r |-> "info", good |-> TRUE, rt |-> TRUE, next |-> a.next,
                            mutual |-> /\ a.vuser = c.user /\ a.vpass = Pass(s.cfg, c.user)
                                       /\ a.vn = c.n /\ a.vuri = a.uri
                                       /\ s.cfg.qop = "auth-int" => a.vbody = a.rbody]]}
    [] a.op = "stale" ->
         {[s |-> s, obs |-> [r |-> "st", stale |-> a.n \in DOMAIN s.t.n /\ ~Fresh(s.t, s.now, s.t.n[a.n].at) /\ a.hdr,
                             lapsed |-> Lapsed(s.t, s.now, a.n) /\ a.hdr]]}
    \* threads present correct credentials with count nc at once.  "diff": for
    \* different requests (one wins); "same": the same one (all are served);
    \* "run": counts nc+1..nc+threads (the highest always wins)
    [] a.op = "storm" ->
         LET ok == Valid(s.t, s.now, a.n) /\ ~Lapsed(s.t, s.now, a.n)
                   /\ a.nc <= s.t.n[a.n].nc + NcJump
             rq(i) == <<"REGISTER", IF a.kind = "same" THEN a.uri ELSE a.uri \o ToString(i), "">>
         IN IF ~ok \/ (a.kind # "run" /\ a.nc <= s.t.n[a.n].nc) \/ (a.kind = "run" /\ a.nc < s.t.n[a.n].nc)
            THEN {[s |-> s, obs |-> [r |-> "storm", n |-> 0]]}
            ELSE CASE a.kind = "same" -> {[s |-> [s EXCEPT !.t = Use(@, s.now, a.n, a.nc, rq(0))],
                                           obs |-> [r |-> "storm", n |-> a.threads]]}
                   [] a.kind = "diff" -> {[s |-> [s EXCEPT !.t = Use(@, s.now, a.n, a.nc, rq(i))],
                                           obs |-> [r |-> "storm", n |-> 1]] : i \in 0..a.threads - 1}
                   [] OTHER -> {[s |-> [s EXCEPT !.t = Use(@, s.now, a.n, a.nc + a.threads, rq(a.threads - 1))],
                                 obs |-> [r |-> "storm", n |-> k]] : k \in 1..a.threads}
    \* the nonce table by itself
    [] a.op = "m_gen" -> {[s |-> [s EXCEPT !.m = x], obs |-> [r |-> "n", n |-> Count(x)]] : x \in Issue(s.m, s.now)}
    [] a.op = "m_use" ->
         IF Accepts(s.m, s.now, a.n, a.nc, Req(a))
         THEN {[s |-> [s EXCEPT !.m = Use(@, s.now, a.n, a.nc, Req(a))], obs |-> R("ok")]}
         ELSE {[s |-> s, obs |-> R("no")]}
    [] a.op = "m_look" ->
         {[s |-> s, obs |-> [r |-> "st", valid |-> Valid(s.m, s.now, a.n),
                             stale |-> a.n \in DOMAIN s.m.n /\ ~Fresh(s.m, s.now, s.m.n[a.n].at),
                             lapsed |-> Lapsed(s.m, s.now, a.n)]]}
    [] a.op = "m_clean" -> LET x == Clean(s.m, s.now) IN {[s |-> [s EXCEPT !.m = x], obs |-> [r |-> "n", n |-> Count(x)]]}
Norm(e) == e.obs

TabOK(t, now) == /\ Count(t) <= t.max
                 /\ \A i \in DOMAIN t.n : t.n[i].at <= t.n[i].used /\ t.n[i].used <= now
StateOK(s) == TabOK(s.t, s.now) /\ TabOK(s.m, s.now)
===========================================================================
