---------------------------- MODULE Registrar ----------------------------
(***************************************************************************)
(* The REGISTER registrar and its location table.  Time in milliseconds,   *)
(* lifetimes in seconds, q values in thousandths.                          *)
(*                                                                         *)
(* cfg: [auth, users, min, max, def, rl, sr, adv, mode, aors]              *)
(*   auth "" | "www" | "proxy"; users <<[u, p]>>; rl requests per client   *)
(*   (0 = unlimited); aors the canonical addresses that dumps list.        *)
(*                                                                         *)
(* State: b[aor][contact] = [exp, call, cseq, q, ua, path, inst, reg, flow]; an  *)
(* entry past exp is invisible but occupies its place until it is purged.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
Range(q) == {q[i] : i \in DOMAIN q}
RECURSIVE SumSet(_, _)
SumSet(f, D) == IF D = {} THEN 0 ELSE LET d == CHOOSE x \in D : TRUE IN f[d] + SumSet(f, D \ {d})

PerAor == 20
Total  == 100000

InitState(cfg) == [cfg |-> cfg, now |-> 0, b |-> << >>, f |-> << >>, cnt |-> << >>]

At(s, aor) == IF aor \in DOMAIN s.b THEN s.b[aor] ELSE << >>
Live(s, aor) == LET m == At(s, aor) IN {u \in DOMAIN m : m[u].exp > s.now}
Purged(s, aor) == IF aor \in DOMAIN s.b
                  THEN [s EXCEPT !.b[aor] = Del(@, DOMAIN @ \ Live(s, aor))] ELSE s
RECURSIVE PurgeAll(_, _)
PurgeAll(s, A) == IF A = {} THEN s ELSE LET a == CHOOSE x \in A : TRUE IN PurgeAll(Purged(s, a), A \ {a})

Own(s) == SumSet([a \in DOMAIN s.b |-> Cardinality(DOMAIN s.b[a])], DOMAIN s.b)
Fill(s) == SumSet([i \in DOMAIN s.f |-> s.f[i].n], DOMAIN s.f)
Count(s) == Own(s) + Fill(s)

(* storing one binding: <<new state>>, or << >> when a limit refuses it    *)
Upsert(s, aor, u, r) ==
  LET m == At(s, aor) IN
  IF (Count(s) >= Total /\ u \notin DOMAIN m) \/ Cardinality(DOMAIN m \ {u}) >= PerAor THEN << >>
  ELSE <<[s EXCEPT !.b = Put(@, aor, Put(m, u, r))]>>
Remove(s, aor, u) == IF aor \in DOMAIN s.b THEN [s EXCEPT !.b[aor] = Del(@, {u})] ELSE s

(* ---------------------------------------------------------------- REGISTER *)
Absent == -1
Bad    == -2
(* the lifetime asked for one contact: its own parameter, else the Expires *)
(* header, else the configured default                                     *)
Asked(s, e, c) == IF c.exp # Absent THEN c.exp ELSE IF e.hexp # Absent THEN e.hexp ELSE s.cfg.def
(* too long for the table: the request fails as a whole                    *)
TooLong(e, c) == Len(e.aor) > 512 \/ Len(c.u) > 512 \/ Len(e.call) > 256 \/ Len(e.ua) > 256 \/ e.cseqBad = "big"

Proven(s, e) ==
  /\ e.cred.mut \in {"ok", "dual", "after"}
  /\ \E i \in DOMAIN s.cfg.users : s.cfg.users[i] = [u |-> e.cred.user, p |-> e.cred.pass]
Owner(e) == e.own # "" /\ e.own = e.cred.uc

Outdated(s, e, u) == LET r == At(s, e.aor)[u] IN r.call = e.call /\ e.cseq <= r.cseq

ContactRefusals(s, e, c) ==
  LET x == Asked(s, e, c) IN
     (IF c.bad \/ c.exp = Bad \/ e.hexp = Bad \/ c.q = Bad \/ c.reg = Bad \/ c.instBad THEN {<<400, -1>>} ELSE {})
  \cup (IF x > 0 /\ x < s.cfg.min THEN {<<423, s.cfg.min>>} ELSE {})
  \cup (IF x > s.cfg.max THEN {<<400, -1>>} ELSE {})
  \cup (IF c.u \in Live(s, e.aor) /\ Outdated(s, e, c.u) THEN {<<400, -1>>} ELSE {})
  \cup (IF x > 0 /\ TooLong(e, c) THEN {<<0, -1>>, <<400, -1>>} ELSE {})

Refusals(s, e) ==
     (IF e.toBad \/ e.cseqBad \in {"num", "method", "huge"} \/ (e.contacts = << >> /\ ~e.wild) \/ (e.wild /\ e.contacts # << >>)
         \/ (e.wild /\ e.hexp # 0) \/ e.pathBad
      THEN {<<400, -1>>} ELSE {})
  \cup (IF s.cfg.auth # "" /\ ~Owner(e) THEN {<<403, -1>>} ELSE {})
  \cup (IF e.wild /\ \E u \in Live(s, e.aor) : Outdated(s, e, u) THEN {<<400, -1>>} ELSE {})
  \cup UNION {ContactRefusals(s, e, e.contacts[i]) : i \in DOMAIN e.contacts}

Rec(s, e, c) == [exp |-> s.now + 1000 * Asked(s, e, c), call |-> e.call, cseq |-> e.cseq,
                 q |-> IF c.q = Absent THEN 1000 ELSE c.q, ua |-> e.ua, path |-> e.path, inst |-> c.inst, reg |-> c.reg, flow |-> ""]
(* the contacts in order; << >> as soon as a limit refuses one             *)
RECURSIVE Apply(_, _, _)
Apply(s, e, k) ==
  IF k > Len(e.contacts) THEN <<s>>
  ELSE LET c == e.contacts[k] IN
       IF Asked(s, e, c) = 0 THEN Apply(Remove(s, e.aor, c.u), e, k + 1)
       ELSE LET r == Upsert(s, e.aor, c.u, Rec(s, e, c)) IN
            IF r = << >> THEN << >> ELSE Apply(r[1], e, k + 1)

No(code, min) == [r |-> "reg", code |-> code, min |-> min, n |-> 0, ct |-> {}, paths |-> {}, sr |-> FALSE, adv |-> FALSE]
Yes(s, e) ==
  LET m == At(s, e.aor) IN
  [r |-> "reg", code |-> 200, min |-> -1, n |-> Cardinality(Live(s, e.aor)),
   ct |-> {LET x == (m[u].exp - s.now) \div 1000 IN <<u, x, IF x = 0 THEN -1 ELSE m[u].q>> : u \in Live(s, e.aor)},
   paths |-> {m[u].path : u \in Live(s, e.aor)} \ {""}, sr |-> s.cfg.sr, adv |-> s.cfg.adv]
Gone == [No(200, -1) EXCEPT !.n = 1, !.ct = {<<"*", -1, -1>>}]

(* a refused request may or may not have purged what had expired already   *)
Refuse(s, e, codes) ==
  {[s |-> t, obs |-> No(c[1], c[2])] : c \in codes, t \in {s, Purged(s, e.aor)}}

Register(s, e) ==
  LET limited == s.cfg.rl > 0 /\ e.key # ""
      used == IF e.key \in DOMAIN s.cnt THEN s.cnt[e.key] ELSE 0
      s1 == IF limited THEN [s EXCEPT !.cnt = Put(@, e.key, used + 1)] ELSE s
      p == Purged(s1, e.aor)
  IN IF e.miss # "" THEN Refuse(s, e, {<<400, -1>>})
     ELSE IF limited /\ used >= s.cfg.rl THEN Refuse(s, e, {<<503, -1>>})
     ELSE IF s.cfg.auth # "" /\ ~Proven(s, e)
          THEN Refuse(s1, e, {<<IF s.cfg.auth = "proxy" THEN 407 ELSE 401, -1>>})
     ELSE IF Refusals(s1, e) # {} THEN Refuse(s1, e, Refusals(s1, e))
     ELSE IF e.wild THEN {[s |-> [p EXCEPT !.b = Del(@, {e.aor})], obs |-> Gone]}
     ELSE LET r == Apply(p, e, 1) IN
          IF r = << >> THEN Refuse(s1, e, {<<0, -1>>})
          ELSE {[s |-> r[1], obs |-> Yes(r[1], e)]}

(* ---------------------------------------------------------------- table *)
(* a record written directly: every field is that of the last writing, and *)
(* nothing too long, out of range or with control characters is accepted   *)
Ctl(x) == \E i \in 1..Len(x) : SubSeq(x, i, i) \in {"\t", "\n", "\r"}
Fit(e) == /\ e.exp \in 60..86400 /\ e.q \in 0..1000 /\ e.cseq >= 0
          /\ Len(e.aor) <= 512 /\ Len(e.u) <= 512 /\ Len(e.call) <= 256 /\ Len(e.ua) <= 256
          /\ ~Ctl(e.aor) /\ ~Ctl(e.u) /\ ~Ctl(e.call) /\ ~Ctl(e.ua)

Row(s, a, u) == LET r == s.b[a][u] IN
  <<u, r.exp - s.now, r.call, r.cseq, r.q, r.ua, r.path, r.inst, r.reg, r.flow>>
Rows(s, a) == {Row(s, a, u) : u \in Live(s, a)}
Found(s, A) == [r |-> "tab", tab |-> {<<a, Rows(s, a)>> : a \in A}, n |-> SumSet([a \in A |-> Cardinality(Live(s, a))], A)]
R(x) == [r |-> x]
N(x) == [r |-> "n", n |-> x]

Post(s, e) ==
  CASE e.op = "reg" -> Register(s, e)
    (* two requests at the same time act one after the other *)
    [] e.op = "race" ->
         UNION {{[s |-> q.s, obs |-> [r |-> "race", a |-> p.obs, b |-> q.obs]] : q \in Register(p.s, e.b)} : p \in Register(s, e.a)}
         \cup UNION {{[s |-> q.s, obs |-> [r |-> "race", a |-> q.obs, b |-> p.obs]] : q \in Register(p.s, e.a)} : p \in Register(s, e.b)}
    [] e.op = "tick" -> {[s |-> [s EXCEPT !.now = @ + e.dt], obs |-> R("ok")]}
    [] e.op = "dump" -> {[s |-> PurgeAll(s, Range(s.cfg.aors)), obs |-> Found(s, Range(s.cfg.aors))]}
    [] e.op = "find" -> {[s |-> Purged(s, e.aor), obs |-> Found(s, {e.aor})]}
    [] e.op = "put" ->
         LET r == Upsert(s, e.aor, e.u, [exp |-> s.now + 1000 * e.exp, call |-> e.call, cseq |-> e.cseq, q |-> e.q,
                                         ua |-> e.ua, path |-> e.path, inst |-> e.inst, reg |-> e.reg, flow |-> e.flow])
         IN IF ~Fit(e) \/ r = << >> THEN {[s |-> s, obs |-> R("err")]}
            ELSE {[s |-> r[1], obs |-> R("ok")]}
    [] e.op = "del" -> {[s |-> Remove(s, e.aor, e.u), obs |-> R("ok")]}
    [] e.op = "delall" -> {[s |-> [s EXCEPT !.b = Del(@, {e.aor})], obs |-> R("ok")]}
    [] e.op = "cleanup" ->
         LET t == [PurgeAll(s, DOMAIN s.b) EXCEPT !.f = SelectSeq(@, LAMBDA g : g.exp > s.now)]
         IN {[s |-> t, obs |-> N(Count(s) - Count(t))]}
    [] e.op = "fill" -> {[s |-> [s EXCEPT !.f = Append(@, [n |-> e.n, exp |-> s.now + 1000 * e.exp])], obs |-> R("ok")]}

NormReg(o) == [o EXCEPT !.ct = Range(@), !.paths = Range(@)]
Norm(e) ==
  CASE e.obs.r = "reg" -> NormReg(e.obs)
    [] e.obs.r = "race" -> [e.obs EXCEPT !.a = NormReg(@), !.b = NormReg(@)]
    [] e.obs.r = "tab" -> [e.obs EXCEPT !.tab = {<<x[1], Range(x[2])>> : x \in Range(@)}]
    [] OTHER -> e.obs

StateOK(s) == /\ Count(s) <= Total
              /\ \A a \in DOMAIN s.b : Cardinality(DOMAIN s.b[a]) <= PerAor
===========================================================================
