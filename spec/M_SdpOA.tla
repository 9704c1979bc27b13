------------------------------ MODULE M_SdpOA ------------------------------
(* Bounded model of SdpOA.  Ghosts: who keeps the other on hold, and what  *)
(* the holder's directions were just before its last hold.                 *)
EXTENDS SdpOA, Json
CONSTANTS Acts, Depth
VARIABLES s, held, before, hist
vars == <<s, held, before, hist>>

Init == /\ s = InitState(<< >>)
        /\ held = {} /\ before = << >> /\ hist = << >>
Ready(a) == a.op \in {"hold", "resume"} => s.H["A"] # << >>
Next == /\ Len(hist) < Depth
        /\ \E a \in Acts : Ready(a) /\ \E p \in Post(s, a) :
             /\ s' = p.s /\ hist' = Append(hist, a)
             /\ held' = CASE a.op = "hold" -> held \cup {a.by} [] a.op = "resume" -> held \ {a.by}
                          [] a.op = "start" -> {} [] OTHER -> held
             /\ before' = IF a.op = "hold" THEN [by |-> a.by, dirs |-> s.H[a.by]] ELSE << >>
Spec == Init /\ [][Next]_vars
Act == hist'[Len(hist')]

TypeOK == StateOK(s)
(* O01: every generated answer is legal (the profile generator's is not    *)
(* always; see SdpOA), and every line both sides can use is accepted       *)
Both(m, o) == \E f \in Range(m.fmts) : \E x \in CoreMap(m, f), c \in CoreSup(o, m.t) : SameCodec(x, c)
LegalAnswers == [][Act.op = "answer" /\ Act.eng # "profile" =>
  LET x == Answers(Act) IN
  /\ Legal(Act.off, x)
  /\ (Act.eng = "core" /\ x.r = "ok" /\ Act.o.reject = << >> /\ Act.o.base \in 1..60000) =>
       \A i \in DOMAIN x.media : x.media[i].port # 0 <=> (Act.off.media[i].port # 0 /\ Both(Act.off.media[i], Act.o))]_vars
(* O01: accepted lines get ports of their own *)
OwnPorts == [][(Act.op = "answer" /\ Act.eng = "core") =>
  LET x == Answers(Act) IN x.r = "ok" =>
    \A i, j \in DOMAIN x.media : (i # j /\ x.media[i].port # 0) => x.media[i].port # x.media[j].port]_vars
(* O02: while one end holds, the other never sends *)
HeldSilent == \A e \in held : \A i \in DOMAIN s.H["A"] : "s" \notin Flags(s.H[Other(e)][i])
(* O02: resuming at once restores every direction that the hold changed    *)
Restores == [][(Act.op = "resume" /\ before # << >> /\ before.by = Act.by) =>
  \A i \in DOMAIN before.dirs : "r" \in Flags(before.dirs[i]) => s'.H[Act.by][i] = before.dirs[i]]_vars
(* O02: a hold never makes the holder send, nor any end receive, what it did not before *)
NothingNew == [][(Act.op = "hold") =>
  \A i \in DOMAIN s.H["A"] : Flags(s'.H[Act.by][i]) \subseteq Flags(s.H[Act.by][i])]_vars
View == <<s, held, before>>
Emit == PrintT("@E@" \o ToJson([cfg |-> s.cfg, ev |-> hist']))
===========================================================================
