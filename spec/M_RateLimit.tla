--------------------------- MODULE M_RateLimit ---------------------------
(* Bounded exhaustive model of RateLimit with history ghosts.              *)
EXTENDS RateLimit, Json
CONSTANTS Keys, MaxNow, Depth, Cfgs, Ticks
VARIABLES s, adm, hist   \* adm[k] = instants at which k was admitted
vars == <<s, adm, hist>>
LL == s.L["x"]

Acts == [op : {"check", "remaining", "info", "reset"}, k : Keys, l : {"x"}]
        \cup [op : {"cleanup", "bad", "count", "metrics", "clear"}, l : {"x"}]
        \cup [op : {"log"}, k : Keys, min : {0, 2}, l : {"x"}]
        \cup [op : {"tick"}, dt : Ticks]

Init == /\ \E c \in Cfgs : s = InitState([x |-> c])
        /\ adm = [k \in Keys |-> << >>] /\ hist = << >>
Next == /\ Len(hist) < Depth
        /\ \E a \in Acts : \E p \in Post(s, a) :
             /\ p.s.now <= MaxNow
             /\ s' = p.s /\ hist' = Append(hist, a)
             /\ adm' = IF a.op = "check" /\ p.obs.r = "allow" THEN [adm EXCEPT ![a.k] = Append(@, s.now)]
                       ELSE IF a.op = "reset" THEN [adm EXCEPT ![a.k] = << >>]
                       ELSE IF a.op = "clear" THEN [k \in Keys |-> << >>]
                       ELSE adm
Spec == Init /\ [][Next]_vars
Act == hist'[Len(hist')]

(* L01: between any two admitted requests at most burst + refill, where    *)
(* refill is one token per interval (plus the interval already under way). *)
(* Holds whenever an idle key has had the time to refill completely.       *)
Sane(c) == c.idle * 1000 >= c.burst * Interval(c)
RateBound ==
  (LL.cfg.on /\ Sane(LL.cfg)) => \A k \in Keys : \A i, j \in 1..Len(adm[k]) :
    i <= j => (j - i + 1) <= LL.cfg.burst + ((adm[k][j] - adm[k][i]) \div Interval(LL.cfg)) + 1
(* never more than the capacity at one instant *)
BurstBound ==
  LL.cfg.on => \A k \in Keys : \A i \in 1..Len(adm[k]) :
    Cardinality({j \in 1..Len(adm[k]) : adm[k][j] = adm[k][i]}) <= LL.cfg.burst
TypeOK == StateOK(s)
B(x, k) == Bucket(x.L["x"], x.now, k)
(* queries, housekeeping and other keys never change what a key may do     *)
Harmless ==
  [][ (Act.op \in {"remaining", "info", "count", "metrics", "bad", "log"}
        \/ (Act.op = "cleanup" /\ Sane(LL.cfg)))
        => \A k \in Keys : B(s', k).tok = B(s, k).tok ]_vars
Independent ==
  [][ Act.op \in {"check", "reset"} => \A k \in Keys \ {Act.k} : B(s', k) = B(s, k) ]_vars
(* a whole token means admission *)
Admits == [][ (Act.op = "check" /\ LL.cfg.on) =>
                ((B(s, Act.k).tok >= 1) <=> (s'.L["x"].m.all = LL.m.all + 1)) ]_vars
View == <<[s EXCEPT !.L["x"].m = 0], adm>>
Emit == PrintT("@E@" \o ToJson([cfg |-> [x |-> LL.cfg], ev |-> hist']))
===========================================================================
