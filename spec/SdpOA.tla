------------------------------- MODULE SdpOA -------------------------------
(***************************************************************************)
(* SDP offer/answer: the three answer generators of the stack and the      *)
(* hold/resume offers, between two ends A and B.                           *)
(*                                                                         *)
(* A description is [dir, tm, media]: session-level direction ("" absent), *)
(* the t= value and the media lines                                        *)
(*   [t, port, proto, fmts, maps, fmtp, dir, mid, ptime]                   *)
(* maps: sequence of [pt, k, rate, ch] (k the codec name in lower case, ch *)
(* 0 when absent); fmtp: sequence of [pt, v]; ptime 0 when absent.         *)
(*                                                                         *)
(* State: per end the directions and version distance of the description   *)
(* it sent last (hold/resume histories); answers do not depend on history. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == "none"
Range(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Dedup(_)
Dedup(q) == IF q = << >> THEN << >>
            ELSE LET r == Dedup(SubSeq(q, 1, Len(q) - 1)) IN
                 IF q[Len(q)] \in Range(r) THEN r ELSE Append(r, q[Len(q)])

\* ---------------------------------------------------------------- directions
Flags(d) == CASE d = "sendrecv" -> {"s", "r"} [] d = "sendonly" -> {"s"}
              [] d = "recvonly" -> {"r"} [] d = "inactive" -> {}
Dir(f) == CASE f = {"s", "r"} -> "sendrecv" [] f = {"s"} -> "sendonly"
            [] f = {"r"} -> "recvonly" [] f = {} -> "inactive"
Flip(f) == {IF x = "s" THEN "r" ELSE "s" : x \in f}
Rev(d) == Dir(Flip(Flags(d)))
Meet(d, e) == Dir(Flags(d) \cap Flags(e))
Effective(media, session) == IF media # "" THEN media ELSE IF session # "" THEN session ELSE "sendrecv"

\* ---------------------------------------------------------------- codecs
Ch(m) == IF m.ch = 0 THEN 1 ELSE m.ch         \* an absent channel count means one
SameCodec(a, b) == a.k = b.k /\ a.rate = b.rate /\ Ch(a) = Ch(b)
StaticPT == {ToString(i) : i \in 0..95}
PT == {ToString(i) : i \in 0..127}
Static == [pt \in {"0", "8", "3", "4", "9", "18"} |->
            [pt |-> pt, rate |-> 8000, ch |-> 0,
             k |-> CASE pt = "0" -> "pcmu" [] pt = "8" -> "pcma" [] pt = "3" -> "gsm"
                     [] pt = "4" -> "g723" [] pt = "9" -> "g722" [] pt = "18" -> "g729"]]
(* The mapping of a payload type on a media line: its last rtpmap line. *)
Mapped(m, f) == {i \in DOMAIN m.maps : m.maps[i].pt = f}
MapOf(m, f) == m.maps[CHOOSE i \in Mapped(m, f) : \A j \in Mapped(m, f) : j <= i]
HasMap(m, f) == Mapped(m, f) # {}
FmtpOf(m, f) == LET I == {i \in DOMAIN m.fmtp : m.fmtp[i].pt = f} IN
                IF I = {} THEN << >> ELSE <<m.fmtp[CHOOSE i \in I : \A j \in I : i <= j].v>>

Out(m) == [pt |-> m.pt, k |-> m.k, rate |-> m.rate, ch |-> Ch(m)]
RECURSIVE Flat(_)
Flat(q) == IF q = << >> THEN << >> ELSE Head(q) \o Flat(Tail(q))

Reject(m) == [t |-> m.t, port |-> 0, proto |-> m.proto, fmts |-> m.fmts, maps |-> << >>,
              fmtp |-> << >>, dir |-> "", mid |-> "", ptime |-> 0]
Line(m, port, fmts, maps, fmtp, dir, ptime) ==
  [t |-> m.t, port |-> port, proto |-> m.proto, fmts |-> fmts, maps |-> maps,
   fmtp |-> fmtp, dir |-> dir, mid |-> "", ptime |-> ptime]

\* ---------------------------------------------------------------- engine "core"
(* sip-core: lists of supported codecs for audio and video, ports given    *)
(* out in steps of two from a base, line numbers to refuse, and a wish for *)
(* the direction.  o: [audio, video, base, reject, dir]                    *)
CoreSup(o, t) == IF t = "audio" THEN Range(o.audio) ELSE IF t = "video" THEN Range(o.video) ELSE {}
CoreMap(m, f) == IF HasMap(m, f) THEN {MapOf(m, f)} ELSE IF f \in DOMAIN Static THEN {Static[f]} ELSE {}
CoreFmts(m, o) ==
  SelectSeq(Dedup(m.fmts), LAMBDA f : \E x \in CoreMap(m, f), c \in CoreSup(o, m.t) : SameCodec(x, c))
RECURSIVE CoreLines(_, _, _, _)
CoreLines(off, o, i, port) ==
  IF i > Len(off.media) THEN << >>
  ELSE LET m == off.media[i]
           fs == CoreFmts(m, o)
           ok == (i - 1) \notin Range(o.reject) /\ m.port # 0 /\ fs # << >> /\ port \in 1..65535
           d  == Rev(Effective(m.dir, off.dir))
           map(f) == CHOOSE x \in CoreMap(m, f) : TRUE
       IN IF ~ok THEN <<[Reject(m) EXCEPT !.mid = m.mid]>> \o CoreLines(off, o, i + 1, port)
          ELSE <<[Line(m, port, fs, [k \in DOMAIN fs |-> Out(map(fs[k]))],
                       Flat([k \in DOMAIN fs |-> [x \in DOMAIN FmtpOf(m, fs[k]) |->
                                                   [pt |-> fs[k], v |-> FmtpOf(m, fs[k])[x]]]]),
                       IF o.dir = "" THEN d ELSE Meet(d, o.dir), 0)
                 EXCEPT !.mid = m.mid]>>
               \o CoreLines(off, o, i + 1, port + 2)
CoreAnswer(off, o) ==
  IF Len(off.media) > 20 THEN [r |-> "err"]
  ELSE [r |-> "ok", tm |-> off.tm, addr |-> o.addr, media |-> CoreLines(off, o, 1, o.base)]

\* ---------------------------------------------------------------- engine "caps"
(* sip-sdp negotiate: the local capabilities are a description of their    *)
(* own; the first acceptable line of each media type wins.                 *)
Rtp == {"RTP/AVP", "RTP/SAVP", "RTP/SAVPF", "UDP/TLS/RTP/SAVPF", "TCP/TLS/RTP/SAVPF"}
LocalOf(loc, t) == {i \in DOMAIN loc.media : loc.media[i].t = t /\ \A j \in 1..(i - 1) : loc.media[j].t # t}
Num(f) == CHOOSE i \in 0..127 : ToString(i) = f
(* The local format an offered one agrees with: the same number for static *)
(* payload types (with the same codec when both sides say which), the      *)
(* lowest number with the same codec for dynamic ones.                     *)
Partner(m, l, f) ==
  IF m.proto \notin Rtp THEN (IF f \in Range(l.fmts) THEN {f} ELSE {})
  ELSE IF f \notin PT THEN {}
  ELSE IF f \in StaticPT
  THEN (IF f \in Range(l.fmts) /\ (HasMap(m, f) /\ HasMap(l, f) => SameCodec(MapOf(m, f), MapOf(l, f)))
        THEN {f} ELSE {})
  ELSE LET C == {g \in Range(l.fmts) : HasMap(m, f) /\ HasMap(l, g) /\ SameCodec(MapOf(m, f), MapOf(l, g))}
       IN {g \in C : \A h \in C : Num(g) <= Num(h)}
CapsMaps(m, l, f, g) ==
  IF m.proto \notin Rtp \/ ~HasMap(l, g) THEN << >> ELSE <<[Out(MapOf(l, g)) EXCEPT !.pt = f]>>
CapsFmtp(m, l, f, g) ==
  IF f \notin PT THEN << >>
  ELSE LET v == IF FmtpOf(l, g) # << >> THEN FmtpOf(l, g) ELSE FmtpOf(m, f)
       IN [x \in DOMAIN v |-> [pt |-> f, v |-> v[x]]]
RECURSIVE CapsLines(_, _, _, _)
CapsLines(off, loc, i, taken) ==
  IF i > Len(off.media) THEN << >>
  ELSE LET m  == off.media[i]
           L  == LocalOf(loc, m.t)
           l  == loc.media[CHOOSE x \in L : TRUE]
           P(f) == Partner(m, l, f)
           fs == SelectSeq(m.fmts, LAMBDA f : P(f) # {})
           g(k) == CHOOSE x \in P(fs[k]) : TRUE
           ok == m.t \notin taken /\ m.port # 0 /\ L # {} /\ m.proto = l.proto /\ fs # << >> /\ l.port # 0
           d  == Meet(Rev(Effective(m.dir, off.dir)), Effective(l.dir, loc.dir))
       IN IF ~ok THEN <<Reject(m)>> \o CapsLines(off, loc, i + 1, taken)
          ELSE <<Line(m, l.port, fs, Dedup(Flat([k \in DOMAIN fs |-> CapsMaps(m, l, fs[k], g(k))])),
                      Dedup(Flat([k \in DOMAIN fs |-> CapsFmtp(m, l, fs[k], g(k))])), d,
                      IF l.ptime # 0 THEN l.ptime ELSE m.ptime)>>
               \o CapsLines(off, loc, i + 1, taken \cup {m.t})
CapsAnswer(off, o) ==
  [r |-> "ok", tm |-> off.tm, addr |-> o.addr, media |-> CapsLines(off, o.loc, 1, {})]

\* ---------------------------------------------------------------- engine "profile"
(* sip-sdp profiles: payload numbers wanted for audio and video.  This     *)
(* generator merges the lines of a type, invents an audio line, drops      *)
(* others and ignores the offered direction; it is modelled as it is and   *)
(* its answer is a known finding whenever it is not a legal one.           *)
(* o: [audio, video: sequences of pt, vid, tel, ap, vp]                    *)
\* mappings an answer can carry; the first of a payload number counts
Usable(m) == m.k # "" /\ Len(m.k) <= 64 /\ m.rate \in 1000..1000000000
RECURSIVE FirstPerPT(_)
FirstPerPT(q) == IF q = << >> THEN << >>
                 ELSE LET r == FirstPerPT(SubSeq(q, 1, Len(q) - 1)) IN
                      IF \E i \in DOMAIN r : r[i].pt = q[Len(q)].pt THEN r ELSE Append(r, q[Len(q)])
ProfCodecs(off, t, want) ==
  FirstPerPT(Flat([i \in DOMAIN off.media |->
    IF off.media[i].t # t THEN << >>
    ELSE Flat([k \in DOMAIN off.media[i].fmts |->
           LET m == off.media[i]
               f == m.fmts[k] IN
           IF f \in PT /\ f \in Range(want) /\ HasMap(m, f) /\ Usable(MapOf(m, f)) THEN <<MapOf(m, f)>> ELSE << >>])]))
HasType(off, t) == \E i \in DOMAIN off.media : off.media[i].t = t
ProfTel(off, o) == o.tel /\ \E i \in DOMAIN off.media : off.media[i].t = "audio" /\ "101" \in Range(off.media[i].fmts)
TelMap == [pt |-> "101", k |-> "telephone-event", rate |-> 8000, ch |-> 1]
ProfLine(t, port, codecs, tel) ==
  LET fs == [k \in DOMAIN codecs |-> codecs[k].pt] \o (IF tel THEN <<"101">> ELSE << >>)
      ms == [k \in DOMAIN codecs |-> [Out(codecs[k]) EXCEPT !.ch = 1]] \o (IF tel THEN <<TelMap>> ELSE << >>)
      \* a second mapping of one number replaces the first
      last(k) == \A j \in DOMAIN ms : j > k => ms[j].pt # ms[k].pt
      keep == SelectSeq([k \in DOMAIN ms |-> k], last)
  IN [t |-> t, port |-> port, proto |-> "RTP/AVP", fmts |-> IF fs = << >> THEN <<"0">> ELSE fs,
      maps |-> [k \in DOMAIN keep |-> ms[keep[k]]],
      fmtp |-> IF tel THEN <<[pt |-> "101", v |-> "0-16"]>> ELSE << >>,
      dir |-> IF port = 0 THEN "" ELSE "sendrecv", mid |-> "", ptime |-> 0]
ProfAnswer(off, o) ==
  [r |-> "ok", tm |-> "0 0", addr |-> o.addr,
   media |-> <<ProfLine("audio", o.ap, ProfCodecs(off, "audio", o.audio), ProfTel(off, o))>>
             \o (IF HasType(off, "video") /\ o.vid
                 THEN <<ProfLine("video", o.vp, ProfCodecs(off, "video", o.video), FALSE)>> ELSE << >>)]

\* ---------------------------------------------------------------- the property
(* What makes an answer legal, whatever the local side prefers.            *)
OfferMap(m, f) == IF HasMap(m, f) THEN {MapOf(m, f)} ELSE IF f \in DOMAIN Static THEN {Static[f]} ELSE {}
LegalLine(off, m, a) ==
  /\ a.t = m.t /\ a.proto = m.proto
  /\ m.port = 0 => a.port = 0
  /\ a.port # 0 =>
       /\ a.fmts # << >> /\ Range(a.fmts) \subseteq Range(m.fmts)
       /\ \A i, j \in DOMAIN a.fmts : i < j =>
            \E x, y \in DOMAIN m.fmts : x < y /\ m.fmts[x] = a.fmts[i] /\ m.fmts[y] = a.fmts[j]
       /\ \A i \in DOMAIN a.maps : /\ a.maps[i].pt \in Range(a.fmts)
                                   /\ \A x \in OfferMap(m, a.maps[i].pt) : SameCodec(x, a.maps[i])
       /\ Flags(a.dir) \subseteq Flip(Flags(Effective(m.dir, off.dir)))
Legal(off, ans) ==
  ans.r = "ok" => /\ Len(ans.media) = Len(off.media)
                  /\ ans.tm = off.tm
                  /\ \A i \in DOMAIN off.media : LegalLine(off, off.media[i], ans.media[i])

\* ---------------------------------------------------------------- hold and resume
(* H[e]: the directions in the description end e sent last, per line;      *)
(* off: the end that made the last offer                                   *)
Other(e) == IF e = "A" THEN "B" ELSE "A"
HoldDir(d) == Dir(Flags(d) \ {"r"})
ResumeDir(d) == Dir(Flags(d) \cup {"r"})

InitState(cfg) == [cfg |-> cfg, H |-> [e \in {"A", "B"} |-> << >>], off |-> ""]
StateOK(s) ==
  /\ Len(s.H["A"]) = Len(s.H["B"])
  \* what the end that answered last sends and receives, the other is ready for
  /\ s.off # "" => \A i \in DOMAIN s.H["A"] :
       Flags(s.H[Other(s.off)][i]) \subseteq Flip(Flags(s.H[s.off][i]))

Stay(s, o) == [s |-> s, obs |-> o]
Answers(a) ==
  CASE a.eng = "core" -> CoreAnswer(a.off, a.o)
    [] a.eng = "caps" -> CapsAnswer(a.off, a.o)
    [] a.eng = "profile" -> ProfAnswer(a.off, a.o)
(* the order of attribute lines means nothing *)
Unordered(x) ==
  IF x.r # "ok" THEN x
  ELSE [x EXCEPT !.media = [i \in DOMAIN x.media |->
         [x.media[i] EXCEPT !.maps = Range(@), !.fmtp = Range(@)]]]
DoAnswer(s, a) ==
  LET x == Answers(a) IN
  IF a.eng = "profile" /\ ~Legal(a.off, x)
  THEN {[s |-> s, obs |-> Unordered(x), kf |-> "O01-profile"]}
  ELSE {Stay(s, Unordered(x))}
(* "start": end a.by offers directions a.dirs, the other answers wishing   *)
(* a.wish; "hold"/"resume": a.by makes the offer from what it sent last.   *)
Exchange(s, a, offer) ==
  LET ans == [i \in DOMAIN offer |-> IF a.wish = "" THEN Rev(offer[i]) ELSE Meet(Rev(offer[i]), a.wish)] IN
  {[s |-> [s EXCEPT !.off = a.by, !.H = [e \in {"A", "B"} |-> IF e = a.by THEN offer ELSE ans]],
    obs |-> [r |-> "ok", offer |-> offer, ans |-> ans,
             up |-> IF a.op = "start" THEN 0 ELSE 1, same |-> TRUE]]}
Post(s, a) ==
  CASE a.op = "answer" -> DoAnswer(s, a)
    [] a.op = "start" -> Exchange(s, a, [i \in DOMAIN a.dirs |-> Effective(a.dirs[i], a.sdir)])
    [] a.op = "hold" -> Exchange(s, a, [i \in DOMAIN s.H[a.by] |-> HoldDir(s.H[a.by][i])])
    [] a.op = "resume" -> Exchange(s, a, [i \in DOMAIN s.H[a.by] |-> ResumeDir(s.H[a.by][i])])
Norm(e) == IF e.op = "answer" THEN Unordered(e.obs) ELSE e.obs
===========================================================================
