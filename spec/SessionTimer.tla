---------------------------- MODULE SessionTimer ----------------------------
(***************************************************************************)
(* Session timers (RFC 4028): one timer per dialog, told to refresh at     *)
(* half the interval when this end is the refresher and reported expired   *)
(* at its end; and the negotiation of interval and refresher.              *)
(* Times of timers are milliseconds, negotiated intervals seconds.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]

MaxTimers == 10000
InitState(cfg) == [now |-> 0, t |-> << >>, fill |-> 0]   \* t: dialog -> [at, se, ref, told]

R(x) == [r |-> x]
N(x) == [r |-> "n", n |-> x]
To(s, o) == {[s |-> s, obs |-> o]}

Event(st, k) == IF st.t[k].ref /\ ~st.t[k].told THEN "refresh" ELSE "expired"
EventAt(st, k) == IF Event(st, k) = "refresh" THEN st.t[k].at + st.t[k].se \div 2 ELSE st.t[k].at + st.t[k].se
Fire(st, k) == IF Event(st, k) = "refresh" THEN [st EXCEPT !.t[k].told = TRUE] ELSE [st EXCEPT !.t = Del(@, {k})]
DueBy(st, T) == {k \in DOMAIN st.t : EventAt(st, k) <= T}

(* Everything due up to T happens in order of time: set of [s, v].         *)
RECURSIVE Elapse(_, _)
Elapse(st, T) ==
  LET K == DueBy(st, T)
      first == {k \in K : \A j \in K : EventAt(st, k) <= EventAt(st, j)}
  IN IF K = {} THEN {[s |-> [st EXCEPT !.now = T], v |-> << >>]}
     ELSE UNION {{[s |-> p.s, v |-> <<<<Event(st, k), k>>>> \o p.v] : p \in Elapse(Fire(st, k), T)} : k \in first}
(* Some of what is due at exactly T happens, in any order.                 *)
RECURSIVE Partly(_, _)
Partly(st, T) ==
  {[s |-> st, v |-> << >>]}
  \cup UNION {{[s |-> p.s, v |-> <<<<Event(st, k), k>>>> \o p.v] : p \in Partly(Fire(st, k), T)} : k \in DueBy(st, T)}

Start(st, a) == [st EXCEPT !.t = IF Cardinality(DOMAIN st.t \cup {a.k}) + st.fill > MaxTimers
                                 THEN Del(@, {a.k})
                                 ELSE Put(@, a.k, [at |-> st.now, se |-> a.se, ref |-> a.ref, told |-> FALSE])]
Do(st, a, what) == IF what = "stop" THEN [st EXCEPT !.t = Del(@, {a.k})] ELSE Start(st, a)

(* ---- negotiation ---- *)
Negotiate(a) ==
  LET min == Max(a.lmin, a.rmin)
      pref == Max(a.pref, min)
  IN IF a.se < min THEN [r |-> "refused", n |-> min]
     ELSE [r |-> "ok", n |-> IF a.pref >= 0 /\ pref < a.se THEN pref ELSE a.se]
Uas == {"uas", "UAS", "Uas"}
Role(p) == IF p \in Uas THEN [r |-> "role", uac |-> FALSE, uas |-> TRUE] ELSE [r |-> "role", uac |-> TRUE, uas |-> FALSE]
RefOf(p) == IF p \in Uas THEN "uas" ELSE IF p \in {"uac", "UAC", "Uac"} THEN "uac" ELSE ""
SE == 90..86400
MinSE == 90..7200

Post(st, a) ==
  CASE a.op \in {"start", "refresh", "stop"} -> To(Do(st, a, a.op), R("ok"))
    [] a.op = "tick" -> {[s |-> p.s, obs |-> [r |-> "events", v |-> p.v]] : p \in Elapse(st, st.now + a.dt)}
    \* an operation at the instant other things fall due: what is not reported
    \* before it is reported after it, unless it concerns the same dialog
    [] a.op \in {"race", "race2"} ->
         LET T == st.now + a.dt
             before == UNION {{[s |-> [q.s EXCEPT !.now = T], v |-> p.v \o q.v] : q \in Partly(p.s, T)} : p \in Elapse(st, T - 1)}
         IN UNION {LET mid == Do(b.s, a, a.what)
                       new == DueBy(mid, T) \ {a.k}
                   IN {[s |-> p.s, obs |-> [r |-> "race", v |-> b.v, w |-> p.v]] : p \in Elapse(mid, T)}
                   : b \in before}
    [] a.op = "has" -> To(st, R(IF a.k \in DOMAIN st.t THEN "yes" ELSE "no"))
    [] a.op = "left" -> To(st, IF a.k \in DOMAIN st.t THEN N(Max(0, st.t[a.k].at + st.t[a.k].se - st.now)) ELSE R("none"))
    [] a.op = "count" -> To(st, N(Cardinality(DOMAIN st.t) + st.fill))
    [] a.op = "clear" -> To([st EXCEPT !.t = << >>, !.fill = 0], R("ok"))
    [] a.op = "fill" ->
         LET f == Min(a.n, MaxTimers - Cardinality(DOMAIN st.t)) IN
         To([st EXCEPT !.fill = f], N(Cardinality(DOMAIN st.t) + f))
    [] a.op = "valid" -> To(st, IF a.se < (IF a.min < 0 THEN 90 ELSE a.min)
                                THEN [r |-> "refused", n |-> IF a.min < 0 THEN 90 ELSE a.min] ELSE [r |-> "ok", n |-> a.se])
    [] a.op = "nego" -> To(st, Negotiate(a))
    [] a.op = "role" -> To(st, Role(a.p))
    [] a.op = "half" -> To(st, N(a.ms \div 2))
    [] a.op = "senew" -> To(st, IF a.n \in SE THEN [r |-> "ok", n |-> a.n, rf |-> ""] ELSE R("refused"))
    [] a.op = "minnew" -> To(st, IF a.n \in MinSE THEN [r |-> "ok", n |-> a.n] ELSE R("refused"))
    [] a.op = "separse" -> To(st, IF a.form \in 0..2 /\ a.n \in SE THEN [r |-> "ok", n |-> a.n, rf |-> RefOf(a.rf)] ELSE R("refused"))
    [] a.op = "minparse" -> To(st, IF a.form \in 0..1 /\ a.n \in MinSE THEN [r |-> "ok", n |-> a.n] ELSE R("refused"))
Norm(e) == e.obs
StateOK(st) ==
  /\ Cardinality(DOMAIN st.t) + st.fill <= MaxTimers
  /\ \A k \in DOMAIN st.t : EventAt(st, k) >= st.now
===========================================================================
