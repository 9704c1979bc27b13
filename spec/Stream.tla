------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* SIP over byte streams (RFC 3261 18.3): what arrives on a connection, in *)
(* pieces of any size, is cut into the messages it consists of, on         *)
(* connections peers open to a listener and on those a pool opens to them. *)
(* A connection is [st, side, buf, est, idle, n]: st "open" or "dead",     *)
(* buf what has arrived and is not delivered, est a message has arrived,   *)
(* idle seconds since something arrived, n messages delivered.             *)
(***************************************************************************)
EXTENDS Text

MaxHead == 65536    MaxBody == 10485760   PerPeer == 64
FirstWithin == 60   IdleLimit == 1800
InitState(cfg) == [cfg |-> cfg, c |-> << >>]          \* c: function from names to connections
R(x) == [r |-> x]
CRLF == "\r\n"

\* ------------------------------------------------------------ cutting
RECURSIVE Mark(_, _, _), Lines(_)
Mark(x, y, i) == IF i + Len(y) - 1 > Len(x) THEN 0 ELSE IF SubSeq(x, i, i + Len(y) - 1) = y THEN i ELSE Mark(x, y, i + 1)
Lines(x) == LET i == Mark(x, CRLF, 1) IN IF i = 0 THEN <<x>> ELSE <<Upto(x, i - 1)>> \o Lines(From(x, i + 2))
(* the lengths a header block gives: -1 for what is no number *)
LengthOf(l) == LET j == To(l, {":"}, 1)
                   n == Low(Trim(Upto(l, j - 1)))
                   v == Trim(From(l, j + 1))
               IN IF j > Len(l) \/ Ch(l, 1) \in {" ", "\t"} \/ n \notin {"content-length", "l"} THEN {}
                  ELSE IF ~Num(v, "10485760") THEN {-1} ELSE {Val(v)}
Lengths(h) == LET q == TLCEval(Tail(Lines(h))) IN UNION {LengthOf(q[i]) : i \in DOMAIN q}
(* [fs: messages, rest, bad]: nothing after what is not a message counts *)
RECURSIVE Cut(_, _)
Cut(fs, x) ==
  LET y == From(x, Skip(x, {"\r", "\n"}, 1))
      i == Mark(y, "\r\n\r\n", 1)
      ls == IF i = 0 THEN {} ELSE TLCEval(Lengths(Upto(y, i - 1)))
  IN IF i = 0 THEN [fs |-> fs, rest |-> y, bad |-> FALSE]
     ELSE IF Cardinality(ls) # 1 \/ ls = {-1} THEN [fs |-> fs, rest |-> "", bad |-> TRUE]
     ELSE LET end == i + 3 + (CHOOSE n \in ls : TRUE) IN
          IF Len(y) < end THEN [fs |-> fs, rest |-> y, bad |-> FALSE] ELSE Cut(Append(fs, Upto(y, end)), From(y, end + 1))

\* ------------------------------------------------------------ steps
Has1(s, c) == c \in DOMAIN s.c
Open(s, c) == Has1(s, c) /\ s.c[c].st = "open"
Set(s, c, v) == [s EXCEPT !.c = [k \in DOMAIN @ \cup {c} |-> IF k = c THEN v ELSE @[k]]]
OpenIn(s) == {c \in DOMAIN s.c : s.c[c].st = "open" /\ s.c[c].side = "in"}
Fresh(side) == [st |-> "open", side |-> side, buf |-> "", est |-> FALSE, idle |-> 0, n |-> 0]
Limit(v) == IF v.est THEN IdleLimit ELSE FirstWithin
Rot(s, D, n) == [s EXCEPT !.c = [k \in DOMAIN @ |-> IF k \in D THEN [@[k] EXCEPT !.st = "dead"]
                                                   ELSE IF @[k].st = "open" THEN [@[k] EXCEPT !.idle = @ + n] ELSE @[k]]]
Min(a, b) == IF a < b THEN a ELSE b
Post(s, a) ==
  CASE a.op = "open" ->
         (IF Has1(s, a.c) THEN {[s |-> s, obs |-> R("none")]} ELSE {[s |-> Set(s, a.c, Fresh(a.side)), obs |-> R("ok")]})
    [] a.op = "send" ->
         (IF ~Open(s, a.c) THEN {[s |-> s, obs |-> R("none")]}
          ELSE LET v == s.c[a.c]
                   k == TLCEval(Cut(<< >>, v.buf \o a.x))
               IN {[s |-> Set(s, a.c, [v EXCEPT !.buf = k.rest, !.st = IF k.bad THEN "dead" ELSE @, !.est = @ \/ k.fs # << >>, !.idle = 0, !.n = @ + Len(k.fs)]),
                    obs |-> [r |-> "got", fs |-> k.fs, closed |-> k.bad]]})
    [] a.op = "end" ->           \* the peer closes its side: what is incomplete is dropped
         (IF ~Open(s, a.c) THEN {[s |-> s, obs |-> R("none")]}
          ELSE {[s |-> Set(s, a.c, [s.c[a.c] EXCEPT !.st = "dead", !.buf = ""]), obs |-> [r |-> "got", fs |-> << >>, closed |-> TRUE]]})
    [] a.op = "reply" ->         \* on the connection of the last message
         (IF ~Open(s, a.c) \/ s.c[a.c].n = 0 THEN {[s |-> s, obs |-> R("none")]} ELSE {[s |-> s, obs |-> [r |-> "back", x |-> a.x]]})
    [] a.op = "wait" ->
         (LET D == {c \in OpenIn(s) : s.c[c].idle + a.n > Limit(s.c[c])}
              E == {c \in OpenIn(s) : s.c[c].idle + a.n = Limit(s.c[c])}
          IN {[s |-> Rot(s, D \cup F, a.n), obs |-> [r |-> "waited", closed |-> D \cup F]] : F \in SUBSET E})
    [] a.op = "big" ->           \* a message of a.h bytes of header and a.b of body, at once
         (IF ~Open(s, a.c) \/ s.c[a.c].buf # "" THEN {[s |-> s, obs |-> R("none")]}
          ELSE LET ok == a.h <= MaxHead /\ a.b <= MaxBody IN
               {[s |-> Set(s, a.c, [s.c[a.c] EXCEPT !.st = IF ok THEN @ ELSE "dead", !.est = @ \/ ok, !.idle = 0, !.n = @ + (IF ok THEN 1 ELSE 0)]), obs |-> [r |-> "big", ok |-> ok]]})
    [] a.op = "flood" ->         \* a.n bytes of header without an end; then the peer closes
         (IF ~Open(s, a.c) \/ s.c[a.c].buf # "" THEN {[s |-> s, obs |-> R("none")]}
          ELSE {[s |-> Set(s, a.c, [s.c[a.c] EXCEPT !.st = "dead"]), obs |-> [r |-> "flood", closed |-> a.n > MaxHead]]})
    [] a.op = "crowd" ->         \* a.n more connections from the same peer, a message on each, then all of them closed
         {[s |-> s, obs |-> [r |-> "crowd", n |-> Min(a.n, PerPeer - Cardinality(OpenIn(s)))]]}

Norm(e) == IF e.obs.r = "waited" THEN [e.obs EXCEPT !.closed = Range(@)] ELSE e.obs
StateOK(s) == \A c \in DOMAIN s.c : LET v == s.c[c] IN
  /\ v.st \in {"open", "dead"}
  /\ v.st = "open" => Cut(<< >>, v.buf).fs = << >> /\ ~Cut(<< >>, v.buf).bad
  /\ v.n > 0 => v.est
=============================================================================
