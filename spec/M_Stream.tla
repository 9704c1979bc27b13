------------------------------ MODULE M_Stream ------------------------------
EXTENDS Stream, Json
CONSTANTS Acts, Depth
VARIABLES s, hist, obs, all
vars == <<s, hist, obs, all>>
(* all: for every connection what was sent on it and delivered from it *)
Add(f, a, o) ==
  IF a.op # "send" \/ o.r # "got" THEN f
  ELSE LET old == IF a.c \in DOMAIN f THEN f[a.c] ELSE [x |-> "", fs |-> << >>] IN
       [k \in DOMAIN f \cup {a.c} |-> IF k = a.c THEN [x |-> old.x \o a.x, fs |-> old.fs \o o.fs] ELSE f[k]]
Init == s = InitState(<< >>) /\ hist = << >> /\ obs = R("none") /\ all = << >>
Next == Len(hist) < Depth /\ \E a \in Acts : \E p \in Post(s, a) :
          p.obs.r # "none" /\ s' = p.s /\ obs' = p.obs /\ hist' = Append(hist, a) /\ all' = Add(all, a, p.obs)
Spec == Init /\ [][Next]_vars
TypeOK == StateOK(s)
(* F01: what is delivered depends on the bytes alone, not on how they were cut on the way *)
Chunks == \A c \in DOMAIN all : all[c].fs = Cut(<< >>, all[c].x).fs
(* messages of other connections do not interfere: each is delivered where it was sent *)
Whole == \A c \in DOMAIN all : \A i \in DOMAIN all[c].fs : Mark(all[c].x, all[c].fs[i], 1) > 0
(* a closed connection delivers nothing any more *)
Silent == [][\A c \in DOMAIN s.c : s.c[c].st = "dead" => s'.c[c] = s.c[c]]_vars
View == <<s, obs, Len(hist)>>
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
=============================================================================
