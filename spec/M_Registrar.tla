--------------------------- MODULE M_Registrar ---------------------------
(* Bounded exhaustive model of Registrar.  The ghost `want` is the table   *)
(* kept the naive way: the fold of the accepted requests, with entries     *)
(* dropped at their expiry.                                                *)
EXTENDS Registrar, Json
CONSTANTS Acts, Depth, Cfgs, MaxNow, Aors
VARIABLES s, want, hist
vars == <<s, want, hist>>

Init == /\ \E c \in Cfgs : s = InitState(c)
        /\ want = [a \in Aors |-> << >>] /\ hist = << >>

RECURSIVE Fold(_, _, _)
Fold(w, e, k) ==
  IF k > Len(e.contacts) THEN w
  ELSE LET c == e.contacts[k]
           x == Asked(s, e, c)
       IN Fold(IF x = 0 THEN Del(w, {c.u}) ELSE Put(w, c.u, s.now + 1000 * x), e, k + 1)
Next == /\ Len(hist) < Depth
        /\ \E a \in Acts : \E p \in Post(s, a) :
             /\ p.s.now <= MaxNow
             /\ s' = p.s /\ hist' = Append(hist, a)
             /\ want' = IF a.op = "reg" /\ p.obs.code = 200
                        THEN [want EXCEPT ![a.aor] = IF a.wild THEN << >> ELSE Fold(@, a, 1)]
                        ELSE want
Spec == Init /\ [][Next]_vars
Act == hist'[Len(hist')]
Vis(x, a) == [u \in Live(x, a) |-> x.b[a][u]]

TypeOK == StateOK(s)
(* R01: what is found is the fold of the accepted requests, unexpired *)
Exact == \A a \in Aors : LET w == {u \in DOMAIN want[a] : want[a][u] > s.now} IN
           /\ Live(s, a) = w
           /\ \A u \in w : s.b[a][u].exp = want[a][u]
(* R01: other addresses are never affected; R02: a refusal changes nothing *)
Frame == [][\A a \in Aors :
             (Act.op = "reg" /\ a # Act.aor) => Vis(s', a) = Vis(s, a)]_vars
(* R02: under one Call-ID the sequence numbers of a contact only rise, and *)
(* nothing set by it is removed with an old number                         *)
Rising == [][\A a \in Aors : \A u \in Live(s, a) :
              (Act.op = "reg" /\ Act.call = s.b[a][u].call /\ Vis(s', a) # Vis(s, a)
                /\ (u \notin Live(s', a) \/ s'.b[a][u] # s.b[a][u]))
              => Act.cseq > s.b[a][u].cseq]_vars
(* R03: with authentication only the proven owner changes anything *)
OnlyOwner == [][(s.cfg.auth # "" /\ Act.op = "reg" /\ \E a \in Aors : Vis(s', a) # Vis(s, a))
                => Proven(s, Act) /\ Owner(Act)]_vars
View == <<s, want>>
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
===========================================================================
