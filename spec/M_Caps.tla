------------------------------- MODULE M_Caps -------------------------------
EXTENDS Caps, Json
CONSTANTS Acts, Depth, Contacts, Accepts, Rejects, MaxC, MaxH
VARIABLES s, hist
vars == <<s, hist>>
Do(a) == \E p \in Post(s, a) : s' = p.s /\ hist' = Append(hist, a)
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == s = InitState(<< >>) /\ hist = << >>
Next == \/ Len(hist) < Depth /\ \E a \in Acts : Do(a)
        \/ hist = << >> /\ MaxC > 0 /\ \E cs \in Seqs(Contacts, MaxC) \ {<< >>}, ac \in Seqs(Accepts, MaxH), rj \in Seqs(Rejects, 1) :
              Do([op |-> "score", cs |-> cs, ac |-> ac, rj |-> rj])
Spec == Init /\ [][Next]_vars
TypeOK == StateOK(s)
LastIs(op) == hist # << >> /\ hist[Len(hist)].op = op
(* C02: what is written reads back, but for FALSE, and tokens that look     *)
(* like numbers or stand for a list of one                                  *)
Fits(t, v) == IF t \in ListTags THEN v.k \in {"list", "bool"} ELSE v.k # "list" /\ ~(v.k = "tok" /\ IsDec(v.x))
ReadsBack ==
  LET c == s.caps k == {t \in DOMAIN c : c[t] # Bool(FALSE)} IN
  (\A t \in DOMAIN c : Fits(t, c[t])) => ReadSet(AnySeq(WriteSet(c)), << >>) = <<[t \in k |-> c[t]]>>
(* C01 *)
Sane == LastIs("score") =>
  LET a == hist[Len(hist)] v == Canonical(a).v IN
  /\ \A i \in DOMAIN a.cs :
       LET c == a.cs[i] caps == Fn(c.f) IN
       /\ (a.rj = << >> /\ \A j \in DOMAIN a.ac : ~a.ac[j].req) => \E k \in DOMAIN v : v[k].i = i
       /\ (~c.has /\ \A j \in DOMAIN a.ac : ~a.ac[j].req) => \E k \in DOMAIN v : v[k].i = i
       /\ (\E j \in DOMAIN a.ac : a.ac[j].req /\ \E t \in DOMAIN Fn(a.ac[j].f) : t \notin DOMAIN caps) => \A k \in DOMAIN v : v[k].i # i
       /\ (\E j \in DOMAIN a.rj : Fn(a.rj[j].f) = caps /\ c.has /\ caps # << >>) => \A k \in DOMAIN v : v[k].i # i
  /\ \A k \in DOMAIN v : v[k].qa \in 0..Unit
  /\ \A k \in 1..Len(v) - 1 : v[k].q >= v[k + 1].q /\ (v[k].q = v[k + 1].q => v[k].qa >= v[k + 1].qa)
View == <<s, Len(hist), IF Len(hist) = 1 THEN hist ELSE << >> >>
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
=============================================================================
