-------------------------------- MODULE Proxy --------------------------------
(***************************************************************************)
(* The response context of a forking proxy (RFC 3261 section 16.7): which  *)
(* of the responses its branches receive go upstream, when a silent branch *)
(* is given up (Timer C), and which branches are to be cancelled.          *)
(*                                                                         *)
(* A branch is [st, tc, code, www, px]: st trying/proceeding/cancelled/    *)
(* done; tc when Timer C fires (-1: not armed); code its final response    *)
(* (0: none) with the challenges it carried.  best is the best failure so  *)
(* far, ok/six whether a success/a global failure arrived.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Range(q) == {q[k] : k \in 1..Len(q)}
None == [code |-> 0, n |-> 0, www |-> {}, px |-> {}]
MaxBranches == 50

InitState(cfg) == [cfg |-> cfg, now |-> 0, br |-> << >>, best |-> None, ok |-> FALSE, six |-> FALSE]

Class(c) == c \div 100
(* A global failure is best, then a success, then the lowest class; the    *)
(* first one within its class.                                             *)
Rank(c) == IF Class(c) = 6 THEN 0 ELSE Class(c)
Better(old, new) == old.code = 0 \/ Rank(new.code) < Rank(old.code)
Live(s) == {b \in DOMAIN s.br : s.br[b].code = 0}
Challenged(s) == {b \in DOMAIN s.br : s.br[b].code \in {401, 407}}
(* What goes upstream when every branch has failed.                        *)
Chosen(s) == IF s.best.code \in {401, 407}
             THEN [s.best EXCEPT !.www = UNION {s.br[b].www : b \in Challenged(s)},
                                 !.px = UNION {s.br[b].px : b \in Challenged(s)}]
             ELSE s.best
CancelOthers(br, b) == [x \in DOMAIN br |-> IF x # b /\ br[x].code = 0 THEN [br[x] EXCEPT !.st = "cancelled", !.tc = -1] ELSE br[x]]

Msg(a) == [code |-> a.code, n |-> a.n, www |-> Range(a.www), px |-> Range(a.px)]
Syn(code) == [code |-> code, n |-> 0, www |-> {}, px |-> {}]
To(s, f) == [s |-> s, f |-> f]

Provisional(s, b, m) ==
  LET x == s.br[b]
      over == s.ok \/ s.six
  IN IF x.code # 0 \/ x.st = "cancelled" THEN To(s, << >>)
     ELSE To([s EXCEPT !.br[b].st = "proceeding",
                       !.br[b].tc = IF m.code > 100 \/ x.st = "trying" THEN s.now + s.cfg.c ELSE @],
             IF m.code = 100 \/ over THEN << >> ELSE <<m>>)
(* A branch has one final response; only a success is passed on again.     *)
Final(s, b, m) ==
  LET first == s.br[b].code = 0
      t == IF first THEN [s EXCEPT !.br[b] = [st |-> "done", tc |-> -1, code |-> m.code, www |-> m.www, px |-> m.px],
                                   !.best = IF Better(@, m) THEN m ELSE @]
           ELSE s
  IN IF Class(m.code) = 2 THEN To([t EXCEPT !.ok = TRUE, !.best = IF Better(@, m) THEN m ELSE @, !.br = CancelOthers(@, b)], <<m>>)
     ELSE IF ~first THEN To(s, << >>)
     ELSE IF Class(m.code) = 6 THEN
            To([t EXCEPT !.six = TRUE, !.br = CancelOthers(@, b)], IF s.ok \/ s.six THEN << >> ELSE <<m>>)
     ELSE IF s.ok \/ s.six \/ Live(t) # {} THEN To(t, << >>)
     ELSE To(t, <<Chosen(t)>>)
Receive(s, b, m) ==
  IF b \notin DOMAIN s.br THEN To(s, << >>)
  ELSE IF m.code < 200 THEN Provisional(s, b, m) ELSE Final(s, b, m)

(* Time passes: branches whose Timer C runs out fail with a 408.           *)
DueBy(s, t) == {b \in DOMAIN s.br : s.br[b].tc # -1 /\ s.br[b].tc <= t}
RECURSIVE Pass(_, _)
Pass(s, t) ==
  LET D == DueBy(s, t)
  IN IF D = {} THEN To([s EXCEPT !.now = t], << >>)
     ELSE LET b == CHOOSE x \in D : \A y \in D : s.br[x].tc <= s.br[y].tc
              r == Receive(s, b, Syn(408))
              q == Pass(r.s, t)
          IN To(q.s, r.f \o q.f)

Obs(r, f, x) == [r |-> r, fwd |-> f, x |-> x]
Is(p) == {[s |-> p.s, obs |-> Obs("ok", p.f, {})]}
Same(s, r, x) == {[s |-> s, obs |-> Obs(r, << >>, x)]}
TF(b) == IF b THEN "true" ELSE "false"

Post(s, a) ==
  CASE a.op = "add" ->
         IF s.six THEN Same(s, "over", {})
         ELSE IF Cardinality(DOMAIN s.br) >= MaxBranches THEN Same(s, "full", {})
         ELSE IF a.b \in DOMAIN s.br THEN {}
         ELSE {[s |-> [s EXCEPT !.br = Put(@, a.b, [st |-> "trying", tc |-> -1, code |-> 0, www |-> {}, px |-> {}])],
                obs |-> Obs("ok", << >>, {})]}
    [] a.op = "resp" -> Is(Receive(s, a.b, Msg(a)))
    [] a.op = "fail" ->
         IF a.b \notin DOMAIN s.br \/ s.br[a.b].st \in {"done", "cancelled"} THEN Same(s, "ok", {})
         ELSE Is(Receive(s, a.b, Syn(503)))
    [] a.op = "wait" -> Is(Pass(s, s.now + a.ms))
    [] a.op = "cancels" -> Same(s, "ok", Live(s))
    [] a.op = "best" -> IF s.ok /\ s.six THEN {} ELSE Same(s, IF s.best.code = 0 THEN "None" ELSE "Some(" \o TF(s.ok) \o ")", {})
    [] a.op = "over" -> Same(s, TF(s.six), {})
    [] OTHER -> {}

Norm(e) == IF e.obs.r \in {"PANIC", "HANG"} THEN e.obs
           ELSE [r |-> e.obs.r, fwd |-> [k \in 1..Len(e.obs.fwd) |-> Msg(e.obs.fwd[k])], x |-> Range(e.obs.x)]

(* What must hold of every state.                                          *)
StateOK(s) ==
  /\ Cardinality(DOMAIN s.br) <= MaxBranches
  /\ \A b \in DOMAIN s.br :
       LET x == s.br[b] IN /\ (x.st = "done") = (x.code # 0)
                           /\ (x.tc # -1) = (x.st = "proceeding")
                           /\ x.tc # -1 => x.tc > s.now /\ x.tc <= s.now + s.cfg.c
  /\ (s.best.code = 0) = (\A b \in DOMAIN s.br : s.br[b].code = 0)
=============================================================================
