------------------------------- MODULE Prack -------------------------------
(***************************************************************************)
(* Reliable provisional responses (RFC 3262): the table of provisionals    *)
(* awaiting their PRACK, and the RSeq counters.  Time is in milliseconds.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min(a, b) == IF a < b THEN a ELSE b
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

MaxPending == 10
Timeout    == 300000     \* a provisional is given up after this long
Every      == 300000     \* given-up and acknowledged ones are dropped this often

InitState(cfg) ==
  [now |-> 0,
   p |-> << >>,          \* dialog -> list of [rseq, cseq, method, code, done, at]
   c |-> << >>,          \* dialog -> time of the last clean-up
   n |-> << >>]          \* dialog -> RSeq numbers drawn after the first

R(x) == [r |-> x]
N(x) == [r |-> "n", n |-> x]
List(st, d) == IF d \in DOMAIN st.p THEN st.p[d] ELSE << >>

Cleaned(st, d) ==
  IF d \in DOMAIN st.c /\ st.now - st.c[d] < Every THEN st
  ELSE [st EXCEPT !.c = Put(@, d, st.now),
                  !.p = IF d \in DOMAIN @
                        THEN Put(@, d, SelectSeq(@[d], LAMBDA e : ~e.done /\ st.now - e.at <= Timeout))
                        ELSE @]
Register(st, a) ==
  LET s1 == Cleaned(st, a.d)
      l  == List(s1, a.d)
      k  == IF Len(l) >= MaxPending THEN SubSeq(l, Len(l) + 2 - MaxPending, Len(l)) ELSE l
  IN [s1 EXCEPT !.p = Put(@, a.d, Append(k, [rseq |-> a.rseq, cseq |-> a.cseq, method |-> a.method,
                                             code |-> a.code, done |-> FALSE, at |-> st.now]))]

Key(e) == <<e.rseq, e.cseq, e.method>>
WellFormed(a) == a.form \in {0, 1}
(* The provisional a PRACK names, as an index, 0 if there is none.         *)
Named(l, a) ==
  LET I == {i \in 1..Len(l) : Key(l[i]) = Key(a)}
  IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Prack(st, a) ==
  LET s1 == Cleaned(st, a.d)
      l  == List(s1, a.d)
      i  == IF WellFormed(a) THEN Named(l, a) ELSE 0
  IN IF i # 0 /\ ~l[i].done
     THEN [s |-> [s1 EXCEPT !.p[a.d][i].done = TRUE],
           obs |-> [r |-> "ok", rseq |-> a.rseq, cseq |-> a.cseq, method |-> a.method]]
     ELSE [s |-> s1, obs |-> R("refused")]
Waiting(st, d) ==
  LET l == SelectSeq(List(st, d), LAMBDA e : ~e.done) IN [i \in 1..Len(l) |-> <<l[i].rseq, l[i].code>>]
(* the first entry with this number tells whether it was acknowledged *)
IsDone(st, d, n) ==
  LET I == {i \in 1..Len(List(st, d)) : List(st, d)[i].rseq = n}
  IN I # {} /\ st.p[d][CHOOSE i \in I : \A j \in I : i <= j].done

To(s, o) == {[s |-> s, obs |-> o]}
Post(st, a) ==
  CASE a.op = "tick" -> To([st EXCEPT !.now = @ + a.dt], R("ok"))
    [] a.op = "reg" -> To(Register(st, a), R("ok"))
    [] a.op = "prack" -> {Prack(st, a)}
    [] a.op = "is" -> To(st, R(IF IsDone(st, a.d, a.rseq) THEN "yes" ELSE "no"))
    [] a.op = "pending" -> LET s1 == Cleaned(st, a.d) IN To(s1, [r |-> "list", v |-> Waiting(s1, a.d)])
    [] a.op = "rmd" -> To([st EXCEPT !.p = Del(@, a.d), !.c = Del(@, a.d)], R("ok"))
    [] a.op = "rmp" ->
         To(IF a.d \notin DOMAIN st.p THEN st
            ELSE [st EXCEPT !.p[a.d] = SelectSeq(@, LAMBDA e : e.rseq # a.rseq \/ ~e.done)], R("ok"))
    [] a.op = "rack" ->
         To(st, IF WellFormed(a) THEN [r |-> "ok", rseq |-> a.rseq, cseq |-> a.cseq, method |-> a.method]
                ELSE R("refused"))
    [] a.op = "rseq" ->
         IF a.d \in DOMAIN st.n THEN To([st EXCEPT !.n[a.d] = @ + 1], N(st.n[a.d] + 1))
         ELSE To([st EXCEPT !.n = Put(@, a.d, 0)], R("first"))
    [] a.op = "rstorm" ->
         LET k == 8 * a.n - (IF a.d \in DOMAIN st.n THEN 0 ELSE 1)
             b == IF a.d \in DOMAIN st.n THEN st.n[a.d] ELSE 0
         IN To([st EXCEPT !.n = Put(@, a.d, b + k)], N(b + k))
    [] a.op = "cur" -> To(st, IF a.d \in DOMAIN st.n THEN N(st.n[a.d]) ELSE R("none"))
    [] a.op = "rrm" -> To([st EXCEPT !.n = Del(@, a.d)], R("ok"))
    [] a.op = "rlen" -> To(st, N(Cardinality(DOMAIN st.n)))
    [] a.op = "rand" -> To(st, R("ok"))
Norm(e) == e.obs
StateOK(st) == \A d \in DOMAIN st.p : Len(st.p[d]) <= MaxPending
===========================================================================
