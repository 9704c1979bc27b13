------------------------------ MODULE SdpCore ------------------------------
(***************************************************************************)
(* Session descriptions of sip-core: what a text says, what is written for *)
(* it, what the queries answer, and how preconditions (RFC 3312) are       *)
(* answered and judged.                                                    *)
(*                                                                         *)
(* State d: the current description or << >>:                              *)
(*   [o, s, i, u, e, p, c, b, t, z, k, a, q, g, m]                         *)
(* o: six words; i, u, c, k: << >> or <<text>>; e, p, b, z, a, g:          *)
(* sequences of text; t: sequence of [f, r]; q (capabilities): << >> or    *)
(* <<[n, d, p]>>; m: media [f, i, c, b, k, mid, rtcp, q, a].               *)
(* An attribute is [n, v], v << >> for a flag and <<value>> otherwise.     *)
(***************************************************************************)
EXTENDS Text

\* ------------------------------------------------------------------ limits
Short(w, n) == Len(w) <= n
AllShort(q, n) == \A i \in DOMAIN q : Short(q[i], n)
TextOK(x, n) == Short(x, n) /\ ~Has(x, {"\r"})
Bad == [k |-> "bad"]
Spaced(q) == Join(q, " ")

\* ------------------------------------------------------------------ one line
AttrOf(x) == LET j == To(x, {":"}, 1) IN
  IF j > Len(x) THEN [n |-> x, v |-> << >>] ELSE [n |-> Upto(x, j - 1), v |-> <<From(x, j + 1)>>]
AttrOK(a) == TextOK(a.n, 128) /\ (a.v # << >> => TextOK(a.v[1], 4096))
Origin(w) == Len(w) = 6 /\ Short(w[1], 255) /\ Short(w[2], 64) /\ Short(w[3], 64) /\ Short(w[4], 16)
             /\ Short(w[5], 16) /\ Short(w[6], 255)
Conn(w) == Len(w) = 3 /\ Short(w[1], 16) /\ Short(w[2], 16) /\ Short(w[3], 255)
Band(x) == LET p == Split(x, ":") IN
  IF Len(p) = 2 /\ TextOK(p[1], 32) /\ Num(p[2], "10000000") THEN <<p[1] \o ":" \o Canon(p[2])>> ELSE << >>
Repeat(w) == Len(w) >= 3 /\ AllShort(w, 16) /\ Len(w) <= 52
RECURSIVE Zones(_)          \* << >> when one is unusable or there is none
Zones(w) ==
  IF w = << >> THEN [ok |-> TRUE, z |-> << >>]
  ELSE IF Len(w) = 1 \/ ~Num(w[1], U64) \/ ~Short(w[2], 16) THEN [ok |-> FALSE, z |-> << >>]
  ELSE LET r == Zones(SubSeq(w, 3, Len(w))) IN
       [ok |-> r.ok, z |-> <<Canon(w[1]) \o " " \o w[2]>> \o r.z]
Port(x) == LET p == Split(x, "/") IN
  CASE Len(p) = 1 /\ Num(p[1], U16) -> <<Canon(p[1])>>
    [] Len(p) = 2 /\ Num(p[1], U16) /\ Num(p[2], U16) -> <<Canon(p[1]) \o "/" \o Canon(p[2])>>
    [] OTHER -> << >>
Media(w) ==
  IF Len(w) >= 4 /\ Short(w[1], 32) /\ Port(w[2]) # << >> /\ Short(w[3], 64) /\ Len(w) <= 131
     /\ AllShort(SubSeq(w, 4, Len(w)), 16)
  THEN <<[f |-> [w EXCEPT ![2] = Port(w[2])[1]], i |-> << >>, c |-> << >>, b |-> << >>, k |-> << >>,
          mid |-> << >>, rtcp |-> << >>, q |-> << >>, a |-> << >>]>>
  ELSE << >>
KeyOK(x) == LET a == AttrOf(x) IN TextOK(a.n, 64) /\ (a.v # << >> => TextOK(a.v[1], 1024))

\* ------------------------------------------------------------------ attributes with a place of their own
Sem(x) == LET u == Low(x) IN
  CASE u = "ls" -> "LS" [] u = "fid" -> "FID" [] u = "srf" -> "SRF" [] OTHER -> x
Group(v) == LET w == Words(v) IN
  IF Len(w) < 2 \/ Len(w) > 51 \/ ~Short(w[1], 128) \/ ~AllShort(Tail(w), 64) THEN << >>
  ELSE <<Spaced([w EXCEPT ![1] = Sem(w[1])])>>
Rtcp(v) == LET w == Words(v) IN
  IF Len(w) \in {1, 4} /\ Num(w[1], U16) THEN <<Spaced([w EXCEPT ![1] = Canon(w[1])])>> ELSE << >>
Cdsc(v) == LET w == Words(v) IN
  IF Len(w) >= 4 /\ Num(w[1], U8) /\ Canon(w[1]) # "0" /\ Short(w[2], 32) /\ Short(w[3], 64) /\ Len(w) <= 131
     /\ AllShort(SubSeq(w, 4, Len(w)), 16)
  THEN <<Spaced([w EXCEPT ![1] = Canon(w[1])])>> ELSE << >>
CapNames == {"sqn", "cdsc", "cpar", "cparmin", "cparmax"}
Named(a, n) == SelectSeq(a, LAMBDA x : x.n \in n)
Other(a, n) == SelectSeq(a, LAMBDA x : x.n \notin n)
(* The attributes named n with F applied to their values: [ok, q]. *)
Read(a, n, F(_)) ==
  LET q == Named(a, {n})
      ok == \A i \in DOMAIN q : q[i].v # << >> /\ F(q[i].v[1]) # << >> IN
  [ok |-> ok, q |-> IF ok THEN [i \in DOMAIN q |-> F(q[i].v[1])[1]] ELSE << >>]
Same(x) == <<x>>
Byte(x) == IF Num(x, U8) THEN <<Canon(x)>> ELSE << >>
Last(q) == IF q = << >> THEN << >> ELSE <<q[Len(q)]>>
Caps(a) ==        \* [ok, q]
  LET n == Read(a, "sqn", Byte)
      d == Read(a, "cdsc", Cdsc)
      p == Named(a, {"cpar", "cparmin", "cparmax"}) IN
  [ok |-> /\ n.ok /\ d.ok /\ Len(d.q) <= 50 /\ \A i \in DOMAIN p : p[i].v # << >>
          /\ (n.q = << >> => d.q = << >> /\ p = << >>),
   q |-> IF n.q = << >> THEN << >> ELSE <<[n |-> Last(n.q)[1], d |-> d.q, p |-> p]>>]

\* ------------------------------------------------------------------ a whole text
NoDesc == [o |-> << >>, s |-> "", i |-> << >>, u |-> << >>, e |-> << >>, p |-> << >>, c |-> << >>, b |-> << >>,
           t |-> << >>, z |-> << >>, k |-> << >>, a |-> << >>, q |-> << >>, g |-> << >>, m |-> << >>]
(* Lines are read in order; st.at counts the three leading ones, st.lk is  *)
(* the kind of the line before.                                            *)
Start == [d |-> NoDesc, at |-> 0, lk |-> "", bad |-> FALSE]
Lead == <<"v", "o", "s">>
Grow(q, n, x) == Len(q) < n
Session(d, k, x, w, lk) ==        \* set with the new description, {} when refused
  CASE k = "i" -> IF TextOK(x, 2048) THEN {[d EXCEPT !.i = <<x>>]} ELSE {}
    [] k = "u" -> IF TextOK(x, 2048) THEN {[d EXCEPT !.u = <<x>>]} ELSE {}
    [] k = "e" -> IF TextOK(x, 320) /\ Len(d.e) < 10 THEN {[d EXCEPT !.e = Append(@, x)]} ELSE {}
    [] k = "p" -> IF TextOK(x, 32) /\ Len(d.p) < 10 THEN {[d EXCEPT !.p = Append(@, x)]} ELSE {}
    [] k = "c" -> IF Conn(w) THEN {[d EXCEPT !.c = <<Spaced(w)>>]} ELSE {}
    [] k = "b" -> IF Band(x) # << >> /\ Len(d.b) < 20 THEN {[d EXCEPT !.b = @ \o Band(x)]} ELSE {}
    [] k = "t" -> IF Len(w) = 2 /\ Num(w[1], U64) /\ Num(w[2], U64) /\ Len(d.t) < 10
                  THEN {[d EXCEPT !.t = Append(@, [f |-> Canon(w[1]) \o " " \o Canon(w[2]), r |-> << >>])]} ELSE {}
    [] k = "r" -> IF lk \in {"t", "r"} /\ Repeat(w) /\ Len(Cat(MapSeq(d.t, LAMBDA y : y.r))) < 10
                  THEN {[d EXCEPT !.t[Len(d.t)].r = Append(@, Spaced(w))]} ELSE {}
    [] k = "z" -> LET z == Zones(w) IN
                  IF z.ok /\ Len(d.z) + Len(z.z) <= 50 THEN {[d EXCEPT !.z = @ \o z.z]} ELSE {}
    [] k = "k" -> IF KeyOK(x) THEN {[d EXCEPT !.k = <<x>>]} ELSE {}
    [] k = "a" -> IF AttrOK(AttrOf(x)) /\ Len(d.a) < 100 THEN {[d EXCEPT !.a = Append(@, AttrOf(x))]} ELSE {}
    [] OTHER -> {d}                                       \* lines of unknown kind are skipped
InMedia(m, k, x, w) ==
  CASE k = "i" -> IF TextOK(x, 2048) THEN {[m EXCEPT !.i = <<x>>]} ELSE {}
    [] k = "c" -> IF Conn(w) THEN {[m EXCEPT !.c = <<Spaced(w)>>]} ELSE {}
    [] k = "b" -> IF Band(x) # << >> /\ Len(m.b) < 20 THEN {[m EXCEPT !.b = @ \o Band(x)]} ELSE {}
    [] k = "k" -> IF KeyOK(x) THEN {[m EXCEPT !.k = <<x>>]} ELSE {}
    [] k = "a" -> IF AttrOK(AttrOf(x)) /\ Len(m.a) < 100 THEN {[m EXCEPT !.a = Append(@, AttrOf(x))]} ELSE {}
    [] OTHER -> {}
Take(st, l) ==
  LET k == Ch(l, 1)
      x == From(l, 3)
      w == Words(x)
      d == st.d
      n == Len(d.m)
      fail == [st EXCEPT !.bad = TRUE]
      next(e, at) == [d |-> e, at |-> at, lk |-> k, bad |-> FALSE] IN
  IF Len(l) < 2 \/ Ch(l, 2) # "=" THEN fail
  ELSE IF st.at < 3
  THEN IF k # Lead[st.at + 1] THEN fail
       ELSE CASE k = "v" -> IF x = "0" THEN next(d, 1) ELSE fail
              [] k = "o" -> IF Origin(w) THEN next([d EXCEPT !.o = w], 2) ELSE fail
              [] k = "s" -> IF TextOK(x, 1024) THEN next([d EXCEPT !.s = x], 3) ELSE fail
  ELSE IF k = "m"
  THEN IF Media(w) # << >> /\ n < 50 THEN next([d EXCEPT !.m = @ \o Media(w)], 3) ELSE fail
  ELSE LET r == IF n = 0 THEN Session(d, k, x, w, st.lk)
                ELSE {[d EXCEPT !.m[n] = y] : y \in InMedia(d.m[n], k, x, w)} IN
       IF r = {} THEN fail ELSE next(CHOOSE y \in r : TRUE, 3)
RECURSIVE TakeAll(_, _)
TakeAll(st, q) == IF q = << >> \/ st.bad THEN st ELSE TakeAll(Take(st, Head(q)), Tail(q))
(* The attributes with a place of their own are moved there. *)
Placed(d) ==      \* set
  LET g == Read(d.a, "group", Group)
      q == Caps(d.a)
      mid(m) == Read(m.a, "mid", Same)
      rt(m) == Read(m.a, "rtcp", Rtcp)
      cq(m) == Caps(m.a) IN
  IF g.ok /\ Len(g.q) <= 20 /\ q.ok /\ \A i \in DOMAIN d.m : mid(d.m[i]).ok /\ rt(d.m[i]).ok /\ cq(d.m[i]).ok
  THEN {[d EXCEPT !.g = g.q, !.q = q.q, !.a = Other(@, {"group"} \cup CapNames),
                  !.m = [i \in DOMAIN d.m |->
                          [d.m[i] EXCEPT !.mid = Last(mid(d.m[i]).q), !.rtcp = Last(rt(d.m[i]).q), !.q = cq(d.m[i]).q,
                                         !.a = Other(@, {"mid", "rtcp"} \cup CapNames)]]]}
  ELSE {}
RECURSIVE CutCR(_)
CutCR(l) == IF l # "" /\ Ch(l, Len(l)) = "\r" THEN CutCR(Upto(l, Len(l) - 1)) ELSE l
Parse(lines) ==   \* << >> or the description
  LET q == SelectSeq([i \in DOMAIN lines |-> CutCR(lines[i])], LAMBDA l : l # "")
      st == TakeAll(Start, q) IN
  IF st.bad \/ st.at < 3 \/ st.d.t = << >> THEN << >>
  ELSE IF st.d.c = << >> /\ \E i \in DOMAIN st.d.m : st.d.m[i].c = << >> THEN << >>
  ELSE LET p == Placed(st.d) IN IF p = {} THEN << >> ELSE CHOOSE x \in p : TRUE
(* A message body is trimmed as a whole before it is read. *)
IsBlank(l) == All(l, Blank)
RECURSIVE Front(_), Rear(_)
Front(q) == IF q # << >> /\ IsBlank(Head(q)) THEN Front(Tail(q)) ELSE q
Rear(q) == IF q # << >> /\ IsBlank(q[Len(q)]) THEN Rear(SubSeq(q, 1, Len(q) - 1)) ELSE q
TrimAll(lines) ==
  LET q == Rear(Front(lines)) IN
  IF q = << >> THEN q
  ELSE LET f == [q EXCEPT ![1] = From(@, Skip(@, Blank, 1))] IN
       [f EXCEPT ![Len(f)] = Upto(@, Back(@, Blank, Len(@)))]
Input(a) == IF a.via = "body" THEN TrimAll(a.lines) ELSE a.lines

\* ------------------------------------------------------------------ writing
Opt(k, x) == IF x = << >> THEN << >> ELSE <<k \o "=" \o x[1]>>
Each(k, q) == [i \in DOMAIN q |-> k \o q[i]]
ALine(x) == IF x.v = << >> THEN "a=" \o x.n ELSE "a=" \o x.n \o ":" \o x.v[1]
ALines(a) == [i \in DOMAIN a |-> ALine(a[i])]
QLines(q) == IF q = << >> THEN << >> ELSE <<"a=sqn:" \o q[1].n>> \o Each("a=cdsc:", q[1].d) \o ALines(q[1].p)
MLines(m) == <<"m=" \o Spaced(m.f)>> \o Opt("i", m.i) \o Opt("c", m.c) \o Each("b=", m.b) \o Opt("k", m.k)
             \o (IF m.mid = << >> THEN << >> ELSE <<"a=mid:" \o m.mid[1]>>)
             \o (IF m.rtcp = << >> THEN << >> ELSE <<"a=rtcp:" \o m.rtcp[1]>>)
             \o QLines(m.q) \o ALines(m.a)
Write(d) ==
  <<"v=0", "o=" \o Spaced(d.o), "s=" \o d.s>> \o Opt("i", d.i) \o Opt("u", d.u) \o Each("e=", d.e) \o Each("p=", d.p)
  \o Opt("c", d.c) \o Each("b=", d.b)
  \o Cat([i \in DOMAIN d.t |-> <<"t=" \o d.t[i].f>> \o Each("r=", d.t[i].r)])
  \o (IF d.z = << >> THEN << >> ELSE <<"z=" \o Spaced(d.z)>>)
  \o Opt("k", d.k) \o ALines(d.a) \o QLines(d.q) \o Each("a=group:", d.g) \o Cat([i \in DOMAIN d.m |-> MLines(d.m[i])])

\* ------------------------------------------------------------------ queries
DirNames == {"sendrecv", "sendonly", "recvonly", "inactive"}
DirOf(a) == LET q == SelectSeq(a, LAMBDA x : x.v = << >> /\ x.n \in DirNames) IN IF q = << >> THEN "" ELSE q[1].n
Vals(a, n, F(_)) == Cat([i \in DOMAIN a |-> IF a[i].n = n /\ a[i].v # << >> THEN F(a[i].v[1]) ELSE << >>])
MapVal(v) ==
  LET j == To(v, {" "}, 1)
      pt == Upto(v, j - 1)
      p == Split(From(v, j + 1), "/") IN
  IF j > Len(v) \/ Len(p) < 2 \/ ~Num(pt, "127") \/ ~Short(p[1], 64) \/ ~Num(p[2], "1000000000") \/ Canon(p[2]) = "0"
     \/ (Len(p) > 2 /\ ~Short(p[3], 16)) THEN << >>
  ELSE <<Canon(pt) \o " " \o p[1] \o "/" \o Canon(p[2]) \o (IF Len(p) > 2 THEN "/" \o p[3] ELSE "")>>
FmtpVal(v) == LET j == To(v, {" "}, 1) IN
  IF j > Len(v) \/ j > 17 \/ Len(v) - j > 1024 THEN << >> ELSE <<v>>
\* Preconditions: [ty, st, sg, dir] (sg "" except for des)
Statuses == {"e2e", "local", "remote"}
Ways == {"send", "recv", "sendrecv", "none"}
Strengths == {"mandatory", "optional", "none", "failure", "unknown"}
TypeOf(x) == IF Low(x) = "qos" THEN "qos" ELSE x
Cond(v) == LET w == Words(v) IN
  IF Len(w) # 3 \/ Low(w[2]) \notin Statuses \/ Low(w[3]) \notin Ways THEN << >>
  ELSE <<[ty |-> TypeOf(w[1]), sg |-> "", st |-> Low(w[2]), dir |-> Low(w[3])]>>
Des(v) == LET w == Words(v) IN
  IF Len(w) # 4 \/ Low(w[2]) \notin Strengths \/ Low(w[3]) \notin Statuses \/ Low(w[4]) \notin Ways THEN << >>
  ELSE <<[ty |-> TypeOf(w[1]), sg |-> Low(w[2]), st |-> Low(w[3]), dir |-> Low(w[4])]>>
Say(c) == IF c.sg = "" THEN Spaced(<<c.ty, c.st, c.dir>>) ELSE Spaced(<<c.ty, c.sg, c.st, c.dir>>)
Curr(m) == Vals(m.a, "curr", Cond)
Want(m) == Vals(m.a, "des", Des)
Conf(m) == Vals(m.a, "conf", Cond)
Covers(w) == CASE w = "send" -> {"send"} [] w = "recv" -> {"recv"} [] w = "sendrecv" -> {"send", "recv"} [] OTHER -> {}
Reserved(m, ty, st) == UNION {Covers(c.dir) : c \in {x \in Range(Curr(m)) : x.ty = ty /\ x.st = st}}
Reported(m, ty, st) == \E c \in Range(Curr(m)) : c.ty = ty /\ c.st = st
Met(m) == \A w \in Range(Want(m)) : w.sg = "mandatory" =>
            Reported(m, w.ty, w.st) /\ Covers(w.dir) \subseteq Reserved(m, w.ty, w.st)
Band1(b) == LET n == Low(Split(b, ":")[1]) IN
  CASE n = "ct" -> "CT" [] n = "as" -> "AS" [] n = "rs" -> "RS" [] n = "rr" -> "RR" [] n = "tias" -> "TIAS" [] OTHER -> "X"
MediaView(m) ==
  [dir |-> DirOf(m.a), maps |-> Vals(m.a, "rtpmap", MapVal), fmtp |-> Vals(m.a, "fmtp", FmtpVal),
   curr |-> MapSeq(Curr(m), Say), des |-> MapSeq(Want(m), Say), conf |-> MapSeq(Conf(m), Say), met |-> Met(m),
   bw |-> MapSeq(m.b, Band1), mid |-> m.mid, rtcp |-> m.rtcp]
Ok(d) == [r |-> "ok", out |-> Write(d), eq |-> TRUE, idem |-> TRUE, dir |-> DirOf(d.a), bw |-> MapSeq(d.b, Band1),
          view |-> [i \in DOMAIN d.m |-> MediaView(d.m[i])]]

\* ------------------------------------------------------------------ answering preconditions
FlipSt(x) == CASE x = "local" -> "remote" [] x = "remote" -> "local" [] OTHER -> x
FlipWay(x) == CASE x = "send" -> "recv" [] x = "recv" -> "send" [] OTHER -> x
Mirror(c) == [c EXCEPT !.st = FlipSt(@), !.dir = FlipWay(@)]
Qos(q) == SelectSeq(q, LAMBDA c : c.ty = "qos")
Accepted(m) == m.f[1] = "audio" /\ Split(m.f[2], "/")[1] # "0" /\ "0" \in Range(SubSeq(m.f, 4, Len(m.f)))
(* Directions the answerer may state as current in reply to c: on its own  *)
(* segment and the offerer's, what it was told to report; of the latter    *)
(* the offer's own word will do where it was told nothing.                 *)
State(c, a) ==
  CASE c.st = "remote" -> {IF a.loc = "" THEN "none" ELSE a.loc}
    [] c.st = "local" -> IF a.rem = "" THEN {"none", FlipWay(c.dir)} ELSE {a.rem}
    [] OTHER -> {FlipWay(c.dir)}
RECURSIVE CurrAns(_, _)
CurrAns(q, a) ==        \* set of sequences
  IF q = << >> THEN {<< >>}
  ELSE {<<"curr:" \o Say([Mirror(Head(q)) EXCEPT !.dir = w])>> \o r : w \in State(Head(q), a), r \in CurrAns(Tail(q), a)}
DesAns(c, a) == "des:" \o Say([Mirror(c) EXCEPT !.sg = IF a.up /\ @ = "optional" THEN "mandatory" ELSE @])
ConfAns(c) == "conf:" \o Say(Mirror(c))
MediaAns(m, a) ==
  IF ~Accepted(m) THEN {[rej |-> TRUE, pre |-> << >>, rtcp |-> FALSE, caps |-> FALSE]}
  ELSE {[rej |-> FALSE, rtcp |-> FALSE, caps |-> FALSE,
         pre |-> r \o MapSeq(Qos(Want(m)), LAMBDA c : DesAns(c, a)) \o MapSeq(Qos(Conf(m)), ConfAns)] : r \in CurrAns(Qos(Curr(m)), a)}
RECURSIVE Answers(_, _)
Answers(q, a) == IF q = << >> THEN {<< >>} ELSE {<<x>> \o r : x \in MediaAns(Head(q), a), r \in Answers(Tail(q), a)}

\* ------------------------------------------------------------------ operations
InitState(cfg) == [cfg |-> cfg, d |-> << >>]
WellFormed(d) == Parse(Write(d)) = d
StateOK(s) == s.d = << >> \/ WellFormed(s.d)
Post(s, a) ==
  CASE a.op = "parse" ->
         LET d == TLCEval(Parse(Input(a))) IN
         {[s |-> [s EXCEPT !.d = d], obs |-> IF d = << >> THEN [r |-> "err"] ELSE Ok(d)]}
    [] a.op = "answer" ->
         IF s.d = << >> THEN {[s |-> s, obs |-> [r |-> "none"]]}
         ELSE {[s |-> s, obs |-> [r |-> "ok", media |-> x]] : x \in Answers(s.d.m, a)}
Norm(e) == e.obs
===========================================================================
