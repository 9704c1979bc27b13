------------------------------ MODULE SdpText ------------------------------
(***************************************************************************)
(* The text form of SDP (sip-sdp): a lexical specification of the parser,  *)
(* the writer, the validating builder and the in-place setters.            *)
(*                                                                         *)
(* State: the current description d, or << >> when there is none:          *)
(*   [o, s, i, u, e, p, c, b, t, z, k, a, m]                               *)
(* o: six tokens; s: text; i, u, e, p, k: << >> or <<text>>; c: << >> or   *)
(* <<[at, ad]>>; b: sequence of [n, v]; t: sequence of [f, r] (f "start    *)
(* stop", r sequence of text); z: sequence of "time offset"; a: sequence   *)
(* of attributes [n, v] (v << >> for a flag, <<value>> otherwise); m: the  *)
(* media [t, port, proto, fmts, i, c, b, k, a].  Numbers are kept as       *)
(* digit strings without leading zeros.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == << >>
Range(q) == {q[i] : i \in DOMAIN q}
\* ------------------------------------------------------------------ lexing
Ch(x, i) == SubSeq(x, i, i)
WS == {" ", "\t"}
Blank == {" ", "\t", "\r"}
RECURSIVE Skip(_, _, _), To(_, _, _)
Skip(x, C, i) == IF i > Len(x) \/ Ch(x, i) \notin C THEN i ELSE Skip(x, C, i + 1)  \* first not in C
To(x, C, i) == IF i > Len(x) \/ Ch(x, i) \in C THEN i ELSE To(x, C, i + 1)         \* first in C
RECURSIVE TrimEnd(_)
TrimEnd(x) == IF x # "" /\ Ch(x, Len(x)) \in Blank THEN TrimEnd(SubSeq(x, 1, Len(x) - 1)) ELSE x
Trim(x) == TrimEnd(SubSeq(x, Skip(x, Blank, 1), Len(x)))
(* Fields separated by white space, no empty ones. *)
RECURSIVE Words(_)
Words(x) == LET i == Skip(x, WS, 1)
                j == To(x, WS, i) IN
            IF i > Len(x) THEN << >> ELSE <<SubSeq(x, i, j - 1)>> \o Words(SubSeq(x, j, Len(x)))
(* x split at each character c, empty pieces included *)
RECURSIVE Split(_, _)
Split(x, c) == LET j == To(x, {c}, 1) IN
  IF j > Len(x) THEN <<x>> ELSE <<SubSeq(x, 1, j - 1)>> \o Split(SubSeq(x, j + 1, Len(x)), c)
RECURSIVE Join(_, _)
Join(q, c) == IF q = << >> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o c \o Join(Tail(q), c)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == [c \in Digits |-> CHOOSE i \in 0..9 : ToString(i) = c]
IsNum(x) == x # "" /\ Skip(x, Digits, 1) > Len(x)
Canon(x) == LET i == Skip(x, {"0"}, 1) IN IF i > Len(x) THEN "0" ELSE SubSeq(x, i, Len(x))
RECURSIVE Below(_, _, _)      \* digit strings of one length: x <= y
Below(x, y, i) == i > Len(x) \/ DigitVal[Ch(x, i)] < DigitVal[Ch(y, i)]
                  \/ (Ch(x, i) = Ch(y, i) /\ Below(x, y, i + 1))
AtMost(x, y) == LET n == Canon(x) IN Len(n) < Len(y) \/ (Len(n) = Len(y) /\ Below(n, y, 1))
U8 == "255"   U16 == "65535"   U32 == "4294967295"   U64 == "18446744073709551615"
Num(x, max) == IsNum(x) /\ AtMost(x, max)

\* ------------------------------------------------------------------ one line
Bad == [k |-> "bad"]
RtpProtos == {"RTP/AVP", "RTP/SAVP", "RTP/SAVPF", "UDP/TLS/RTP/SAVPF", "TCP/TLS/RTP/SAVPF"}
Attr(x) == LET j == To(x, {":"}, 1) IN
  IF j > Len(x) THEN [n |-> Trim(x), v |-> << >>]
  ELSE [n |-> SubSeq(x, 1, j - 1), v |-> <<TrimEnd(SubSeq(x, j + 1, Len(x)))>>]
Conn(w) ==
  IF Len(w) = 3 /\ w[1] = "IN" /\ w[2] \in {"IP4", "IP6"}
  THEN [k |-> "c", c |-> [at |-> w[2], ad |-> w[3]]] ELSE Bad
(* White space at the ends is not allowed in t= and m= lines, at the       *)
(* beginning not in o= and c= lines.                                       *)
Flush(x) == x # "" /\ Ch(x, 1) \notin WS
Tight(x) == x # "" /\ Ch(x, 1) \notin WS /\ Ch(x, Len(x)) \notin WS
Port(x) == LET p == Split(x, "/") IN
  CASE Len(p) = 1 /\ Num(p[1], U16) -> <<Canon(p[1])>>
    [] Len(p) = 2 /\ Num(p[1], U16) /\ Num(p[2], U16) -> <<Canon(p[1]) \o "/" \o Canon(p[2])>>
    [] OTHER -> << >>
FmtsOK(proto, fmts) == proto \in RtpProtos => \A i \in DOMAIN fmts : Num(fmts[i], "127")
Media(x) == LET w == Words(x) IN
  IF Tight(x) /\ Len(w) >= 4 /\ Port(w[2]) # << >> /\ FmtsOK(w[3], SubSeq(w, 4, Len(w)))
  THEN [k |-> "m", m |-> [t |-> w[1], port |-> Port(w[2])[1], proto |-> w[3], fmts |-> SubSeq(w, 4, Len(w)),
                          i |-> << >>, c |-> << >>, b |-> << >>, k |-> << >>, a |-> << >>]]
  ELSE Bad
RECURSIVE Pairs(_)
Pairs(w) == IF w = << >> THEN << >> ELSE <<w[1] \o " " \o w[2]>> \o Pairs(SubSeq(w, 3, Len(w)))
Line(l) ==
  IF Len(l) < 2 \/ Ch(l, 2) # "=" \/ To(l, {"\r"}, 1) <= Len(l) THEN Bad
  ELSE LET x == SubSeq(l, 3, Len(l))
           w == Words(x)
           k == Ch(l, 1)
           j == To(x, {":"}, 1) IN
  CASE k = "v" -> IF Num(x, U8) THEN [k |-> "v", v |-> Canon(x)] ELSE Bad
    [] k = "o" -> IF Flush(x) /\ Len(w) = 6 /\ w[4] = "IN" /\ w[5] \in {"IP4", "IP6"}
                  THEN [k |-> "o", o |-> w] ELSE Bad
    [] k \in {"s", "i", "u", "e", "p", "k"} -> [k |-> k, x |-> Trim(x)]
    [] k = "c" -> IF Flush(x) THEN Conn(w) ELSE Bad
    [] k = "b" -> IF j > 1 /\ j < Len(x) /\ Num(SubSeq(x, j + 1, Len(x)), U32)
                  THEN [k |-> "b", b |-> [n |-> SubSeq(x, 1, j - 1), v |-> Canon(SubSeq(x, j + 1, Len(x)))]] ELSE Bad
    [] k = "t" -> IF Tight(x) /\ Len(w) = 2 /\ Num(w[1], U64) /\ Num(w[2], U64)
                  THEN [k |-> "t", f |-> Canon(w[1]) \o " " \o Canon(w[2])] ELSE Bad
    [] k = "r" -> IF Len(w) >= 2 THEN [k |-> "r", r |-> Join(w, " ")] ELSE Bad
    [] k = "z" -> IF w # << >> /\ Len(w) % 2 = 0 THEN [k |-> "z", z |-> Pairs(w)] ELSE Bad
    [] k = "a" -> [k |-> "a", a |-> Attr(x)]
    [] k = "m" -> Media(x)
    [] OTHER -> Bad

\* ------------------------------------------------------------------ a whole text
NoDesc == [v |-> << >>, o |-> << >>, s |-> << >>, i |-> << >>, u |-> << >>, e |-> << >>, p |-> << >>,
           c |-> << >>, b |-> << >>, t |-> << >>, z |-> << >>, k |-> << >>, a |-> << >>, m |-> << >>, bad |-> FALSE]
OnMedia(d, f(_)) == [d EXCEPT !.m[Len(d.m)] = f(@)]
Add(d, p, cap) ==
  LET n == Len(d.m) IN
  CASE p.k = "bad" -> [d EXCEPT !.bad = TRUE]
    [] p.k = "v" -> [d EXCEPT !.v = <<p.v>>]
    [] p.k = "o" -> [d EXCEPT !.o = p.o]
    [] p.k = "s" -> [d EXCEPT !.s = <<p.x>>]
    [] p.k = "i" -> IF n = 0 THEN [d EXCEPT !.i = <<p.x>>] ELSE [d EXCEPT !.m[n].i = <<p.x>>]
    [] p.k = "u" -> [d EXCEPT !.u = <<p.x>>]
    [] p.k = "e" -> [d EXCEPT !.e = <<p.x>>]
    [] p.k = "p" -> [d EXCEPT !.p = <<p.x>>]
    [] p.k = "c" -> IF n = 0 THEN [d EXCEPT !.c = <<p.c>>] ELSE [d EXCEPT !.m[n].c = <<p.c>>]
    [] p.k = "b" -> IF n = 0 THEN [d EXCEPT !.b = Append(@, p.b)] ELSE [d EXCEPT !.m[n].b = Append(@, p.b)]
    [] p.k = "t" -> [d EXCEPT !.t = Append(@, [f |-> p.f, r |-> << >>])]
    [] p.k = "r" -> IF d.t = << >> THEN [d EXCEPT !.bad = TRUE] ELSE [d EXCEPT !.t[Len(d.t)].r = Append(@, p.r)]
    [] p.k = "z" -> [d EXCEPT !.z = @ \o p.z]
    [] p.k = "k" -> IF n = 0 THEN [d EXCEPT !.k = <<p.x>>] ELSE [d EXCEPT !.m[n].k = <<p.x>>]
    [] p.k = "a" -> IF n = 0 THEN [d EXCEPT !.a = Append(@, p.a), !.bad = @ \/ Len(d.a) >= cap]
                    ELSE [d EXCEPT !.m[n].a = Append(@, p.a), !.bad = @ \/ Len(d.m[n].a) >= cap]
    [] p.k = "m" -> [d EXCEPT !.m = Append(@, p.m)]
RECURSIVE AddAll(_, _, _)
AddAll(d, q, cap) == IF q = << >> \/ d.bad THEN d ELSE AddAll(Add(d, Line(Head(q)), cap), Tail(q), cap)
RECURSIVE DropBlank(_)
IsBlank(l) == Skip(l, Blank, 1) > Len(l)
DropBlank(q) == IF q # << >> /\ IsBlank(q[Len(q)]) THEN DropBlank(SubSeq(q, 1, Len(q) - 1)) ELSE q
(* lines joined by eol; then the text `end' *)
StartsLine(x) == x # "" /\ (Ch(x, 1) = "\n" \/ (Len(x) > 1 /\ SubSeq(x, 1, 2) = "\r\n"))
Lines(a) == IF a.lines = << >> \/ a.end = "" \/ StartsLine(a.end) THEN a.lines
            ELSE [a.lines EXCEPT ![Len(a.lines)] = @ \o a.end]
RECURSIVE Sum(_)
Sum(q) == IF q = << >> THEN 0 ELSE Head(q) + Sum(Tail(q))
Bytes(a) == Sum([i \in DOMAIN a.lines |-> Len(a.lines[i])]) + Len(a.eol) * (IF a.lines = << >> THEN 0 ELSE Len(a.lines) - 1) + Len(a.end)
(* lim: [bytes, lines, len, attrs] *)
Within(a) ==
  LET q == Lines(a) IN
  /\ Bytes(a) <= a.lim.bytes
  /\ Cardinality({i \in DOMAIN q : q[i] # ""}) <= a.lim.lines
  /\ \A i \in DOMAIN q : Len(q[i]) <= a.lim.len
Parse(lines, cap) ==
  LET d == AddAll(NoDesc, DropBlank(lines), cap) IN
  IF d.bad \/ d.v # <<"0">> \/ d.o = << >> \/ d.s = << >> \/ d.t = << >> THEN << >> ELSE d

\* ------------------------------------------------------------------ writing
Opt(k, x) == IF x = << >> THEN << >> ELSE <<k \o "=" \o x[1]>>
CLine(c) == IF c = << >> THEN << >> ELSE <<"c=IN " \o c[1].at \o " " \o c[1].ad>>
BLines(b) == [i \in DOMAIN b |-> "b=" \o b[i].n \o ":" \o b[i].v]
ALines(a) == [i \in DOMAIN a |-> IF a[i].v = << >> THEN "a=" \o a[i].n ELSE "a=" \o a[i].n \o ":" \o a[i].v[1]]
RECURSIVE Cat(_)
Cat(q) == IF q = << >> THEN << >> ELSE Head(q) \o Cat(Tail(q))
MLines(m) == <<"m=" \o m.t \o " " \o m.port \o " " \o m.proto \o " " \o Join(m.fmts, " ")>>
             \o Opt("i", m.i) \o CLine(m.c) \o BLines(m.b) \o Opt("k", m.k) \o ALines(m.a)
Write(d) ==
  <<"v=0", "o=" \o Join(d.o, " "), "s=" \o d.s[1]>> \o Opt("i", d.i) \o Opt("u", d.u) \o Opt("e", d.e)
  \o Opt("p", d.p) \o CLine(d.c) \o BLines(d.b)
  \o Cat([i \in DOMAIN d.t |-> <<"t=" \o d.t[i].f>> \o [j \in DOMAIN d.t[i].r |-> "r=" \o d.t[i].r[j]]])
  \o (IF d.z = << >> THEN << >> ELSE <<"z=" \o Join(d.z, " ")>>)
  \o Opt("k", d.k) \o ALines(d.a) \o Cat([i \in DOMAIN d.m |-> MLines(d.m[i])])

\* ------------------------------------------------------------------ what the accessors say
DirNames == {"sendrecv", "sendonly", "recvonly", "inactive"}
DirOf(a) == LET I == {i \in DOMAIN a : a[i].v = << >> /\ a[i].n \in DirNames} IN
            IF I = {} THEN "" ELSE a[CHOOSE i \in I : \A j \in I : i <= j].n
First(a, n) == LET I == {i \in DOMAIN a : a[i].v # << >> /\ a[i].n = n} IN
               IF I = {} THEN << >> ELSE a[CHOOSE i \in I : \A j \in I : i <= j].v
NumAttr(a, n) == LET v == First(a, n) IN IF v = << >> \/ ~Num(v[1], U32) THEN "" ELSE Canon(v[1])
MapVal(v) ==
  LET j == To(v, {" "}, 1)
      q == Split(SubSeq(v, j + 1, Len(v)), "/") IN
  IF j > Len(v) \/ ~Num(SubSeq(v, 1, j - 1), U8) \/ Len(q) < 2 \/ ~Num(q[2], U32) THEN << >>
  ELSE <<[pt |-> Canon(SubSeq(v, 1, j - 1)), n |-> q[1], rate |-> Canon(q[2]), par |-> IF Len(q) > 2 THEN "/" \o q[3] ELSE ""]>>
FmtpVal(v) ==
  LET j == To(v, {" "}, 1) IN
  IF j > Len(v) \/ ~Num(SubSeq(v, 1, j - 1), U8) THEN << >>
  ELSE <<[pt |-> Canon(SubSeq(v, 1, j - 1)), v |-> Trim(SubSeq(v, j + 1, Len(v)))]>>
PrintVal(v) ==         \* fingerprint
  LET j == To(v, {" "}, 1) IN
  IF j > Len(v) THEN << >> ELSE <<SubSeq(v, 1, j - 1) \o " " \o Trim(SubSeq(v, j + 1, Len(v)))>>
SsrcVal(v) ==
  LET j == To(v, {" "}, 1)
      q == Trim(SubSeq(v, j + 1, Len(v)))
      k == To(q, {":"}, 1) IN
  IF j > Len(v) \/ ~Num(SubSeq(v, 1, j - 1), U32) THEN << >>
  ELSE <<Canon(SubSeq(v, 1, j - 1)) \o " " \o q>>
Lower == [UDP |-> "udp", TCP |-> "tcp", Udp |-> "udp", Tcp |-> "tcp"]
CandVal(v) ==          \* candidate, in canonical form
  LET w == Words(v)
      e == SubSeq(w, 9, Len(w))
      keys == {i \in DOMAIN e : i % 2 = 1}
      last(n) == {i \in keys : e[i] = n /\ \A j \in keys : j > i => e[j] # n}
      one(n, f(_)) == IF last(n) = {} THEN "" ELSE " " \o n \o " " \o f(e[(CHOOSE i \in last(n) : TRUE) + 1])
      id(x) == x IN
  IF Len(w) < 8 \/ Len(e) % 2 = 1 THEN << >>
  ELSE IF ~Num(w[2], U32) \/ ~Num(w[4], U32) \/ ~Num(w[6], U16) \/ w[7] # "typ"
          \/ (\E i \in keys : e[i] = "rport" /\ ~Num(e[i + 1], U16)) THEN << >>
  ELSE <<Join(<<w[1], Canon(w[2]), IF w[3] \in DOMAIN Lower THEN Lower[w[3]] ELSE w[3], Canon(w[4]), w[5],
                Canon(w[6]), "typ", w[8]>>, " ") \o one("raddr", id) \o one("rport", Canon)
         \o Join([i \in DOMAIN e |-> IF i \in keys /\ e[i] \notin {"raddr", "rport"}
                                    THEN " " \o e[i] \o " " \o e[i + 1] ELSE ""], "")>>
Vals(a, n, F(_)) == Cat([i \in DOMAIN a |-> IF a[i].n = n /\ a[i].v # << >> THEN F(a[i].v[1]) ELSE << >>])
LastOf(q) == {q[i] : i \in {i \in DOMAIN q : \A j \in DOMAIN q : j > i => q[j].pt # q[i].pt}}
MediaView(m) ==
  [dir |-> DirOf(m.a), ptime |-> NumAttr(m.a, "ptime"), maxptime |-> NumAttr(m.a, "maxptime"),
   mid |-> First(m.a, "mid"), setup |-> LET x == First(m.a, "setup") IN
     IF x # << >> /\ x[1] \in {"active", "passive", "actpass", "holdconn"} THEN x[1] ELSE "",
   maps |-> Vals(m.a, "rtpmap", MapVal), cache |-> LastOf(Vals(m.a, "rtpmap", MapVal)),
   fmtp |-> Vals(m.a, "fmtp", FmtpVal), cand |-> Vals(m.a, "candidate", CandVal),
   print |-> Vals(m.a, "fingerprint", PrintVal), ssrc |-> Vals(m.a, "ssrc", SsrcVal)]
Ok(d) == [r |-> "ok", out |-> Write(d), eq |-> TRUE, idem |-> TRUE, dir |-> DirOf(d.a),
          view |-> [i \in DOMAIN d.m |-> MediaView(d.m[i])]]

\* ------------------------------------------------------------------ building
(* Arguments of builder calls are checked: text is not empty, not longer   *)
(* than its limit and without control characters; tokens have no white     *)
(* space, attribute names no colon, codec names and parameters no slash.   *)
Control == {"\t", "\r", "\n"}
Has(x, C) == To(x, C, 1) <= Len(x)
TextOK(x, n) == x # "" /\ Len(x) <= n /\ ~Has(x, Control)
TokenOK(x, n) == TextOK(x, n) /\ ~Has(x, {" "})
Fam(x) == IF Has(x, {":"}) THEN "IP6" ELSE "IP4"
NewConn(x) == [at |-> Fam(x), ad |-> x]
BadMedia == [bad |-> TRUE]
RateOK(x) == Num(x, "1000000000") /\ (Len(x) >= 4)
MapText(c) == c.pt \o " " \o c.n \o "/" \o c.rate \o c.par
MapArgsOK(c) == Num(c.pt, "127") /\ TokenOK(c.n, 64) /\ ~Has(c.n, {"/"}) /\ RateOK(c.rate)
                /\ (c.par = "" \/ (TokenOK(SubSeq(c.par, 2, Len(c.par)), 64) /\ ~Has(SubSeq(c.par, 2, Len(c.par)), {"/"})))
FirstWord(v) == LET w == Words(v) IN IF w = << >> THEN "" ELSE w[1]
For(a, n, pt) == a.n = n /\ a.v # << >> /\ Num(FirstWord(a.v[1]), U8) /\ Canon(FirstWord(a.v[1])) = pt
Without(a, n, pt) == SelectSeq(a, LAMBDA x : ~For(x, n, pt))
MapKeys(a) == {x.pt : x \in LastOf(Vals(a, "rtpmap", MapVal))}
AddMap(m, c) ==       \* m with the mapping c in place of any other for that number; {} when over a limit
  LET rest == Without(m.a, "rtpmap", c.pt) IN
  IF Len(rest) >= 50 \/ Cardinality(MapKeys(rest)) >= 50 THEN {}
  ELSE {[m EXCEPT !.a = Append(rest, [n |-> "rtpmap", v |-> <<MapText(c)>>])]}
MediaCall(m, c) ==    \* set with the new media, or {} when the call is refused
  CASE c.f = "format" -> IF Num(c.x, "127") /\ Len(m.fmts) < 50 THEN {[m EXCEPT !.fmts = Append(@, c.x)]} ELSE {}
    [] c.f = "token" -> IF TokenOK(c.x, 64) /\ Len(m.fmts) < 50 THEN {[m EXCEPT !.fmts = Append(@, c.x)]} ELSE {}
    [] c.f = "flag" -> IF TokenOK(c.x, 128) /\ ~Has(c.x, {":"}) /\ Len(m.a) < 50
                       THEN {[m EXCEPT !.a = Append(@, [n |-> c.x, v |-> << >>])]} ELSE {}
    [] c.f = "attr" -> IF TokenOK(c.x, 128) /\ ~Has(c.x, {":"}) /\ TextOK(c.v, 1024) /\ Len(m.a) < 50
                       THEN {[m EXCEPT !.a = Append(@, [n |-> c.x, v |-> <<TrimEnd(c.v)>>])]} ELSE {}
    [] c.f = "conn" -> IF TokenOK(c.x, 256) THEN {[m EXCEPT !.c = <<NewConn(c.x)>>]} ELSE {}
    [] c.f = "map" -> IF MapArgsOK(c) THEN AddMap(m, c) ELSE {}
RECURSIVE MediaCalls(_, _)
MediaCalls(m, q) == IF q = << >> THEN {m} ELSE LET n == MediaCall(m, Head(q)) IN
                    IF n = {} THEN {} ELSE MediaCalls(CHOOSE x \in n : TRUE, Tail(q))
NewMedia(c) == [t |-> c.t, port |-> c.port, proto |-> "RTP/AVP", fmts |-> << >>, i |-> << >>, c |-> << >>,
                b |-> << >>, k |-> << >>, a |-> << >>]
Fresh == [NoDesc EXCEPT !.v = <<"0">>, !.o = <<"-", "0", "0", "IN", "IP4", "0.0.0.0">>, !.s = <<"-">>,
                        !.t = <<[f |-> "0 0", r |-> << >>]>>]
BuildCall(d, c) ==
  CASE c.f = "origin" -> IF TokenOK(c.x, 256) /\ TokenOK(c.id, 256) /\ TokenOK(c.ad, 256)
                         THEN {[d EXCEPT !.o = <<c.x, c.id, "0", "IN", Fam(c.ad), c.ad>>]} ELSE {}
    [] c.f = "name" -> IF TextOK(c.x, 512) THEN {[d EXCEPT !.s = <<Trim(c.x)>>]} ELSE {}
    [] c.f = "info" -> IF TextOK(c.x, 512) THEN {[d EXCEPT !.i = <<Trim(c.x)>>]} ELSE {}
    [] c.f = "key" -> IF TextOK(c.x, 1024) THEN {[d EXCEPT !.k = <<Trim(c.x)>>]} ELSE {}
    [] c.f = "conn" -> IF TokenOK(c.x, 256) THEN {[d EXCEPT !.c = <<NewConn(c.x)>>]} ELSE {}
    [] c.f = "flag" -> IF TokenOK(c.x, 128) /\ ~Has(c.x, {":"}) /\ Len(d.a) < 50
                       THEN {[d EXCEPT !.a = Append(@, [n |-> c.x, v |-> << >>])]} ELSE {}
    [] c.f = "attr" -> IF TokenOK(c.x, 128) /\ ~Has(c.x, {":"}) /\ TextOK(c.v, 1024) /\ Len(d.a) < 50
                       THEN {[d EXCEPT !.a = Append(@, [n |-> c.x, v |-> <<TrimEnd(c.v)>>])]} ELSE {}
    [] c.f = "zone" -> IF TokenOK(c.x, 128) /\ TokenOK(c.v, 128) /\ Len(d.z) < 10
                       THEN {[d EXCEPT !.z = Append(@, c.x \o " " \o c.v)]} ELSE {}
    [] c.f = "time" -> {[d EXCEPT !.t = <<[f |-> c.x, r |-> << >>]>>]}
    [] c.f = "addtime" -> IF Len(d.t) < 10 THEN {[d EXCEPT !.t = Append(@, [f |-> c.x, r |-> << >>])]} ELSE {}
    [] c.f = "media" ->
         LET q == MediaCalls(NewMedia(c), c.calls) IN
         IF q = {} \/ Len(d.m) >= 20 THEN {}
         ELSE LET m0 == [(CHOOSE x \in q : TRUE) EXCEPT !.proto = c.proto]
                  m == IF m0.fmts = << >> THEN [m0 EXCEPT !.fmts = <<"0">>] ELSE m0 IN
              IF FmtsOK(m.proto, m.fmts) THEN {[d EXCEPT !.m = Append(@, m)]} ELSE {}
RECURSIVE Build(_, _, _)
Build(d, q, n) ==
  IF n > Len(q) THEN [d |-> d, at |-> 0]
  ELSE LET x == BuildCall(d, q[n]) IN
       IF x = {} THEN [d |-> << >>, at |-> n] ELSE Build(CHOOSE y \in x : TRUE, q, n + 1)

\* ------------------------------------------------------------------ setters
NoFlag(a) == SelectSeq(a, LAMBDA x : ~(x.v = << >> /\ x.n \in DirNames))
NoVal(a, n) == SelectSeq(a, LAMBDA x : ~(x.v # << >> /\ x.n = n))
SetAttr(a, c) ==
  CASE c.f = "dir" -> Append(NoFlag(a), [n |-> c.x, v |-> << >>])
    [] c.f = "nodir" -> NoFlag(a)
    [] c.f \in {"ptime", "maxptime", "mid", "setup"} -> Append(NoVal(a, c.f), [n |-> c.f, v |-> <<c.x>>])
    [] c.f \in {"noptime", "nomaxptime", "nocandidate"} -> NoVal(a, SubSeq(c.f, 3, Len(c.f)))
    [] c.f = "fmtp" -> Append(Without(a, "fmtp", c.pt), [n |-> "fmtp", v |-> <<c.pt \o " " \o Trim(c.x)>>])
    [] c.f = "candidate" -> Append(a, [n |-> "candidate", v |-> <<c.x>>])
Change(d, c) ==      \* set of [d, ok]
  IF c.i = 0 THEN {[d |-> [d EXCEPT !.a = SetAttr(@, c)], ok |-> TRUE]}
  ELSE IF c.f = "map"
  THEN LET n == IF MapArgsOK(c) THEN AddMap(d.m[c.i], c) ELSE {} IN
       IF n = {} THEN {[d |-> d, ok |-> FALSE]} ELSE {[d |-> [d EXCEPT !.m[c.i] = y], ok |-> TRUE] : y \in n}
  ELSE IF c.f = "nomap"
  THEN {[d |-> [d EXCEPT !.m[c.i].a = Without(@, "rtpmap", c.pt)],
         ok |-> \E x \in Range(d.m[c.i].a) : For(x, "rtpmap", c.pt)]}
  ELSE {[d |-> [d EXCEPT !.m[c.i].a = SetAttr(@, c)], ok |-> TRUE]}

\* ------------------------------------------------------------------ operations
InitState(cfg) == [cfg |-> cfg, d |-> << >>]
WellFormed(d) == Parse(Write(d), 500) = d
StateOK(s) == s.d = << >> \/ WellFormed(s.d)
Err == [r |-> "err"]
Post(s, a) ==
  CASE a.op = "parse" ->
         LET d == IF Within(a) THEN Parse(Lines(a), a.lim.attrs) ELSE << >> IN
         {[s |-> [s EXCEPT !.d = d], obs |-> IF d = << >> THEN Err ELSE Ok(d)]}
    [] a.op = "build" ->
         LET b == Build(Fresh, a.calls, 1) IN
         {[s |-> [s EXCEPT !.d = b.d], obs |-> IF b.at > 0 THEN [r |-> "err", at |-> b.at] ELSE Ok(b.d)]}
    [] a.op = "set" ->
         IF s.d = << >> \/ a.c.i > Len(s.d.m) THEN {[s |-> s, obs |-> [r |-> "none"]]}
         ELSE {[s |-> [s EXCEPT !.d = x.d],
                obs |-> IF a.c.f \in {"map", "nomap"} THEN [Ok(x.d) EXCEPT !.r = IF x.ok THEN "ok" ELSE "no"] ELSE Ok(x.d)]
               : x \in Change(s.d, a.c)}
Unordered(o) == IF o.r \in {"ok", "no"}
                THEN [o EXCEPT !.view = [i \in DOMAIN o.view |-> [o.view[i] EXCEPT !.cache = Range(@)]]] ELSE o
Norm(e) == Unordered(e.obs)
===========================================================================
