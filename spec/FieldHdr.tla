----------------------------- MODULE FieldHdr -----------------------------
(***************************************************************************)
(* Header fields with a value of their own form.  With parameters: Event,  *)
(* Subscription-State, Reason, Replaces, P-Access-Network-Info,            *)
(* P-Visited-Network-ID, Geolocation-Error, Geolocation-Routing and media  *)
(* types.  Plain: token lists, entity tags, Resource-Priority, Priority,   *)
(* Subject, Refer-Sub, RSeq, RAck, Date, Max-Forwards, Via branches.       *)
(* A value is [d: texts, ps: set of [n, v]]; v = << >> or <<text>>.        *)
(* last: what was written last.                                            *)
(***************************************************************************)
EXTENDS Quoted

InitState(cfg) == [cfg |-> cfg, last |-> << >>]
R(x) == [r |-> x]
Opt(q) == IF q = << >> THEN "-" ELSE q[1]
Yes(b) == IF b THEN "yes" ELSE "no"
V(d, ps) == [d |-> d, ps |-> ps]

\* ------------------------------------------------------------ parameters
MaxPs == 20   MaxPName == 64   MaxPVal == 256
Ctl == {"\t", "\r", "\n", "\f"}
Tok(x, n) == IsToken(x) /\ Len(x) <= n
Text(x, n) == Len(x) <= n /\ ~Has(x, Ctl)
NamePar(p) == Tok(p.n, MaxPName)
TokPar(p) == NamePar(p) /\ (p.v # << >> => Tok(p.v[1], MaxPVal))
TextPar(p) == NamePar(p) /\ (p.v # << >> => Text(p.v[1], MaxPVal))
Dup(ps) == \E i, j \in DOMAIN ps : i # j /\ Low(ps[i].n) = Low(ps[j].n)
AllPs(ps, P(_)) == Len(ps) <= MaxPs /\ (\A i \in DOMAIN ps : P(ps[i])) /\ ~Dup(ps)
PSet(ps) == {[n |-> Low(ps[i].n), v |-> ps[i].v] : i \in DOMAIN ps}
Get(ps, n) == LET f == {p \in ps : p.n = n} IN IF f = {} THEN << >> ELSE (CHOOSE p \in f : TRUE).v

(* x = first;name=value;... ; F gives the value of a written one *)
Raw(x) == x
ReadPar(x, F(_)) == LET j == To(x, {"="}, 1) IN
  IF j > Len(x) THEN [n |-> Low(x), v |-> << >>] ELSE [n |-> Low(Trim(Upto(x, j - 1))), v |-> <<F(Trim(From(x, j + 1)))>>]
PsOf(q, F(_)) == MapSeq(Trimmed(q), LAMBDA y : ReadPar(y, F))
First(x) == Trim(SplitQ(x, ";")[1])
Rest(x) == Tail(SplitQ(x, ";"))
Quoted(w) == Len(w) >= 2 /\ Ch(w, 1) = "\"" /\ Ch(w, Len(w)) = "\""
Inner(w) == SubSeq(w, 2, Len(w) - 1)
RECURSIVE Dangling(_), Stray(_)
Dangling(x) == x # "" /\ (IF Ch(x, 1) = "\\" THEN Len(x) = 1 \/ Dangling(From(x, 3)) ELSE Dangling(From(x, 2)))
Stray(x) == x # "" /\ (Ch(x, 1) = "\"" \/ Stray(From(x, IF Ch(x, 1) = "\\" THEN 3 ELSE 2)))    \* a quote without backslash

\* ------------------------------------------------------------ Event, Subscription-State
IsId(p) == p.n = "id"
OkEvent(d, ps) == LET ids == Filter(ps, IsId) IN
  Tok(d[1], 64) /\ AllPs(Filter(ps, LAMBDA p : ~IsId(p)), TokPar) /\ Len(ids) <= 1
  /\ \A i \in DOMAIN ids : ids[i].v # << >> /\ Tok(ids[i].v[1], 256)
States == {"active", "pending", "terminated"}
OkState(d, ps) == (Low(d[1]) \in States \/ Tok(d[1], 32)) /\ AllPs(ps, TokPar)
StateOf(x) == IF Low(x) \in States THEN Low(x) ELSE x

\* ------------------------------------------------------------ Reason
Protocols == [y \in {"sip", "q.850", "sdp"} |-> CASE y = "sip" -> "SIP" [] y = "q.850" -> "Q.850" [] y = "sdp" -> "SDP"]
Protocol(x) == IF Low(x) \in DOMAIN Protocols THEN Protocols[Low(x)] ELSE x
OkReason(d, ps) == Tok(d[1], 32) /\ AllPs(ps, TextPar)
ReasonVal(w) == IF Quoted(w) THEN Unescape(Inner(w)) ELSE w
ReasonBad(y) == LET w == Trim(From(y, To(y, {"="}, 1) + 1)) IN Quoted(w) /\ Dangling(Inner(w))
Q850 == [c \in {"1", "2", "3", "16", "17", "18", "19", "20", "21", "22", "27", "28", "29", "31", "34", "38", "41", "42", "47", "55", "57", "58",
                "63", "65", "79", "87", "88", "102", "111", "127"} |->
  CASE c = "1" -> "Unallocated Number" [] c = "2" -> "No Route to Transit Network" [] c = "3" -> "No Route to Destination"
    [] c = "16" -> "Normal Call Clearing" [] c = "17" -> "User Busy" [] c = "18" -> "No User Responding" [] c = "19" -> "No Answer"
    [] c = "20" -> "Subscriber Absent" [] c = "21" -> "Call Rejected" [] c = "22" -> "Number Changed" [] c = "27" -> "Destination Out of Order"
    [] c = "28" -> "Invalid Number Format" [] c = "29" -> "Facility Rejected" [] c = "31" -> "Normal Unspecified" [] c = "34" -> "No Circuit Available"
    [] c = "38" -> "Network Out of Order" [] c = "41" -> "Temporary Failure" [] c = "42" -> "Switching Equipment Congestion"
    [] c = "47" -> "Resource Unavailable" [] c = "55" -> "Incoming Calls Barred" [] c = "57" -> "Bearer Capability Not Authorized"
    [] c = "58" -> "Bearer Capability Not Available" [] c = "63" -> "Service Not Available" [] c = "65" -> "Bearer Capability Not Implemented"
    [] c = "79" -> "Service Not Implemented" [] c = "87" -> "User Not Member of CUG" [] c = "88" -> "Incompatible Destination"
    [] c = "102" -> "Recovery on Timer Expiry" [] c = "111" -> "Protocol Error" [] c = "127" -> "Interworking Unspecified"]
Phrases == [c \in {"100", "180", "181", "182", "183", "200", "202", "300", "301", "302", "305", "380", "400", "401", "402", "403", "404", "405",
                   "406", "407", "408", "410", "413", "414", "415", "416", "420", "421", "423", "480", "481", "482", "483", "484", "485", "486",
                   "487", "488", "491", "493", "500", "501", "502", "503", "504", "505", "513", "600", "603", "604", "606"} |->
  CASE c = "100" -> "Trying" [] c = "180" -> "Ringing" [] c = "181" -> "Call Is Being Forwarded" [] c = "182" -> "Queued" [] c = "183" -> "Session Progress"
    [] c = "200" -> "OK" [] c = "202" -> "Accepted" [] c = "300" -> "Multiple Choices" [] c = "301" -> "Moved Permanently" [] c = "302" -> "Moved Temporarily"
    [] c = "305" -> "Use Proxy" [] c = "380" -> "Alternative Service" [] c = "400" -> "Bad Request" [] c = "401" -> "Unauthorized"
    [] c = "402" -> "Payment Required" [] c = "403" -> "Forbidden" [] c = "404" -> "Not Found" [] c = "405" -> "Method Not Allowed"
    [] c = "406" -> "Not Acceptable" [] c = "407" -> "Proxy Authentication Required" [] c = "408" -> "Request Timeout" [] c = "410" -> "Gone"
    [] c = "413" -> "Request Entity Too Large" [] c = "414" -> "Request-URI Too Long" [] c = "415" -> "Unsupported Media Type"
    [] c = "416" -> "Unsupported URI Scheme" [] c = "420" -> "Bad Extension" [] c = "421" -> "Extension Required" [] c = "423" -> "Interval Too Brief"
    [] c = "480" -> "Temporarily Unavailable" [] c = "481" -> "Call/Transaction Does Not Exist" [] c = "482" -> "Loop Detected"
    [] c = "483" -> "Too Many Hops" [] c = "484" -> "Address Incomplete" [] c = "485" -> "Ambiguous" [] c = "486" -> "Busy Here"
    [] c = "487" -> "Request Terminated" [] c = "488" -> "Not Acceptable Here" [] c = "491" -> "Request Pending" [] c = "493" -> "Undecipherable"
    [] c = "500" -> "Server Internal Error" [] c = "501" -> "Not Implemented" [] c = "502" -> "Bad Gateway" [] c = "503" -> "Service Unavailable"
    [] c = "504" -> "Server Time-out" [] c = "505" -> "Version Not Supported" [] c = "513" -> "Message Too Large" [] c = "600" -> "Busy Everywhere"
    [] c = "603" -> "Decline" [] c = "604" -> "Does Not Exist Anywhere" [] c = "606" -> "Not Acceptable"]
Cause(ps) == LET v == Get(ps, "cause") IN IF v # << >> /\ Num(v[1], U16) THEN <<Canon(v[1])>> ELSE << >>

\* ------------------------------------------------------------ Replaces
OkWord(x, n) == x # "" /\ Len(x) <= n /\ ~Has(x, Ctl \cup {" ", ";", ","})
OkReplaces(d) == OkWord(d[1], 256) /\ OkWord(d[2], 128) /\ OkWord(d[3], 128)
ReadReplaces(x) ==
  LET q == MapSeq(Split(x, ";"), Trim)
      ps == MapSeq(Tail(q), LAMBDA y : ReadPar(y, Raw))
      early == Filter(ps, LAMBDA p : p.n = "early-only" /\ p.v = << >>)
      tag(n) == Filter(ps, LAMBDA p : p.n = n /\ p.v # << >>)
  IN IF Len(tag("to-tag")) # 1 \/ Len(tag("from-tag")) # 1 \/ Len(ps) # Len(early) + 2 THEN << >>
     ELSE LET d == <<q[1], tag("to-tag")[1].v[1], tag("from-tag")[1].v[1], Yes(early # << >>)>> IN
          IF OkReplaces(d) THEN <<V(d, {})>> ELSE << >>

\* ------------------------------------------------------------ networks, geolocation
OkAccess(d, ps) == d[1] # "" /\ Text(d[1], 64) /\ AllPs(ps, TextPar)
OkNets(d) == d # << >> /\ Len(d) <= 20 /\ \A i \in DOMAIN d : d[i] # "" /\ Text(d[i], 256)
RECURSIVE OpenAt(_, _)
OpenAt(x, quoted) == IF x = "" THEN quoted
  ELSE LET c == Ch(x, 1) IN
       IF quoted /\ c = "\\" THEN OpenAt(From(x, 3), TRUE) ELSE OpenAt(From(x, 2), IF c = "\"" THEN ~quoted ELSE quoted)
ReadNets(x) == Filter(MapSeq(Trimmed(Parts(x, ",")), LAMBDA y : Trim(ValText(y))), LAMBDA y : y # "")
OkCode(x) == x # "" /\ Len(x) <= 16 /\ All(x, AlNum \cup {"-", "."})
OkDesc(x) == Text(x, 512) /\ ~Has(x, {"\"", "\\"})
(* errors are read as far as they can be understood: the first of equal names, the last reason *)
Kept(ps) == {[n |-> ps[i].n, v |-> ps[i].v] : i \in {i \in DOMAIN ps : TokPar(ps[i]) /\ \A j \in 1..(i - 1) : ps[j].n = ps[i].n => ~TokPar(ps[j])}}
Descs(ps) == Filter(ps, LAMBDA p : p.n = "reason" /\ p.v # << >> /\ OkDesc(p.v[1]))
GeoErr(x) == LET ps == PsOf(Rest(x), ValText) de == Descs(ps) IN
  V(<<IF OkCode(First(x)) THEN First(x) ELSE "">> \o (IF de = << >> THEN << >> ELSE de[Len(de)].v), Kept(ps))
LastOf(ps) == {ps[i] : i \in {i \in DOMAIN ps : \A j \in DOMAIN ps : j > i => ps[j].n # ps[i].n}}

\* ------------------------------------------------------------ media types
OkMimeVal(w) == w # "" /\ Text(w, MaxPVal) /\ (IF Quoted(w) THEN ~Dangling(Inner(w)) /\ ~Stray(Inner(w)) ELSE IsToken(w))
MimeVal(w) == IF Quoted(w) THEN Unescape(Inner(w)) ELSE w
OkMime(d, ps) == Len(d) = 2 /\ Tok(d[1], 64) /\ Tok(d[2], 64) /\ AllPs(ps, LAMBDA p : NamePar(p) /\ p.v # << >> /\ OkMimeVal(p.v[1]))
Mime(d, ps) == V(<<Low(d[1]), Low(d[2])>>, {[n |-> p.n, v |-> <<MimeVal(p.v[1])>>] : p \in PSet(ps)})

\* ------------------------------------------------------------ plain values
MaxInt31 == "2147483647"
OkTokens(d) == Len(d) <= 50 /\ \A i \in DOMAIN d : Tok(d[i], 64)
Seqn(x) == Num(x, MaxInt31) /\ Canon(x) # "0"
UpOf == [c \in Lower |-> LET i == CHOOSE i \in 1..26 : Ch(LowerS, i) = c IN Ch(UpperS, i)]
RECURSIVE Up(_)
Up(x) == IF x = "" THEN "" ELSE LET c == Ch(x, 1) IN (IF c \in Lower THEN UpOf[c] ELSE c) \o Up(From(x, 2))
OkMethod(x) == x # "" /\ Len(x) <= 32 /\ All(x, TokenChars \cup {"^", "|"})
OkNs(x) == x # "" /\ Len(x) <= 64 /\ ~Has(x, Ctl \cup {" ", ",", "."})
OkRp(d) == Len(d) % 2 = 0 /\ Len(d) <= 20 /\ \A i \in DOMAIN d : OkNs(d[i])
ReadRp(x) == Cat(MapSeq(Trimmed(Split(x, ",")), LAMBDA y : LET j == To(y, {"."}, 1) IN IF j > Len(y) THEN <<"">> ELSE <<Upto(y, j - 1), From(y, j + 1)>>))
Levels == [y \in {"emergency", "urgent", "normal", "non-urgent"} |-> CASE y = "emergency" -> "3" [] y = "urgent" -> "2" [] y = "normal" -> "1" [] OTHER -> "0"]
OkPrio(x) == Low(x) \in DOMAIN Levels \/ (x # "" /\ Len(x) <= 32 /\ All(x, TokenChars \cup {"^", "|"}))
Printable == AlNum \cup Chars("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~ ") \cup {"\t"}
OkSubject(x) == Len(x) <= 256 /\ All(x, Printable) /\ ~All(x, {" ", "\t"})

(* Dates.  A day is its number since 1970-01-01, a Thursday. *)
Days == <<"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun">>
Months == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE MDays(_, _)
MDays(y, m) == IF m = 1 THEN 0 ELSE MLen(y, m - 1) + MDays(y, m - 1)
Before(y) == (y \div 4) - (y \div 100) + (y \div 400)                 \* leap years up to y
DayNo(y, m, d) == (y - 1970) * 365 + Before(y - 1) - Before(1969) + MDays(y, m) + d - 1
Two(x, max) == Len(x) = 2 /\ IsNum(x) /\ Val(x) <= max
Clock(x) == LET q == Split(x, ":") IN Len(q) = 3 /\ Two(q[1], 23) /\ Two(q[2], 59) /\ Two(q[3], 59)
LooksDate(x) ==
  LET w == Words(x) IN
  /\ Len(w) >= 6
  /\ \E k \in 1..7 : w[1] = Days[k] \o ","
  /\ Two(w[2], 31) /\ Val(w[2]) >= 1
  /\ w[3] \in Range(Months)
  /\ Len(w[4]) = 4 /\ IsNum(w[4]) /\ Val(w[4]) \in 1970..2100
  /\ Clock(w[5])
  /\ Len(w[6]) >= 2 /\ All(w[6], Alpha)
Date(x) == LET w == Words(x) q == Split(w[5], ":") m == CHOOSE m \in 1..12 : Months[m] = w[3] IN
  [y |-> Val(w[4]), m |-> m, d |-> Val(w[2]), n |-> DayNo(Val(w[4]), m, Val(w[2])), s |-> Val(q[1]) * 3600 + Val(q[2]) * 60 + Val(q[3])]
Pad(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
WDay(n) == Days[((n + 3) % 7) + 1]
RECURSIVE YearOf(_, _), MonthOf(_, _, _)
YearOf(n, y) == IF DayNo(y + 1, 1, 1) > n THEN y ELSE YearOf(n, y + 1)
MonthOf(y, r, m) == IF r < MLen(y, m) THEN <<m, r + 1>> ELSE MonthOf(y, r - MLen(y, m), m + 1)
DateText(n, t) == LET y == YearOf(n, 1970 + (n \div 366)) md == MonthOf(y, n - DayNo(y, 1, 1), 1) IN
  WDay(n) \o ", " \o Pad(md[2]) \o " " \o Months[md[1]] \o " " \o ToString(y) \o " " \o Pad(t \div 3600) \o ":" \o Pad((t \div 60) % 60) \o ":" \o Pad(t % 60) \o " GMT"
(* the moment a date stands for, if it is the standard form of a real one *)
Moment(x) == LET a == Date(x) IN
  IF a.d <= MLen(a.y, a.m) /\ Trim(x) = DateText(a.n, a.s) THEN ToString(a.n) \o ":" \o ToString(a.s) ELSE "-"

\* ------------------------------------------------------------ reading
If(ok, v) == IF ok THEN <<v>> ELSE << >>
Value(k, x) ==
  CASE k = "event" -> LET d == <<First(x)>> ps == TLCEval(PsOf(Rest(x), ValText)) IN If(OkEvent(d, ps), V(d, PSet(ps)))
    [] k = "substate" -> LET d == <<First(x)>> ps == TLCEval(PsOf(Rest(x), ValText)) IN If(OkState(d, ps), V(<<StateOf(d[1])>>, PSet(ps)))
    [] k = "reason" -> LET d == <<First(x)>> q == Trimmed(Rest(x)) ps == TLCEval(PsOf(q, ReasonVal)) IN
         If(OkReason(d, ps) /\ ~\E i \in DOMAIN q : ReasonBad(q[i]), V(<<Protocol(d[1])>>, PSet(ps)))
    [] k = "replaces" -> ReadReplaces(x)
    [] k = "access" -> LET d == <<First(x)>> ps == TLCEval(PsOf(Rest(x), ValText)) IN If(OkAccess(d, ps), V(d, PSet(ps)))
    [] k = "nets" -> LET d == TLCEval(ReadNets(x)) IN If(~OpenAt(x, FALSE) /\ OkNets(d), V(d, {}))
    [] k = "geoerr" -> <<GeoErr(x)>>
    [] k = "georoute" -> <<V(<< >>, {p \in LastOf(PsOf(SplitQ(x, ";"), ValText)) : TokPar(p)})>>
    [] k = "mime" -> LET d == MapSeq(Split(First(x), "/"), Trim) ps == TLCEval(PsOf(Rest(x), Raw)) IN If(OkMime(d, ps), Mime(d, ps))
    [] k \in {"tokens", "allow"} -> LET d == MapSeq(Split(Trim(x), ","), Trim) IN
         IF Trim(x) # "" /\ OkTokens(d) THEN <<V(d, {})>> ELSE IF k = "allow" THEN <<V(<< >>, {})>> ELSE << >>
    [] k \in {"etag", "ifmatch"} -> If(Tok(x, 128), V(<<x>>, {}))
    [] k = "rp" -> LET d == TLCEval(ReadRp(x)) IN If(OkRp(d), V(d, {}))
    [] k = "prio" -> If(OkPrio(x), V(<<Low(x)>>, {}))
    [] k = "priol" -> <<V(<<Low(Trim(x))>>, {})>>
    [] k = "subject" -> If(OkSubject(x), V(<<x>>, {}))
    [] k = "refersub" -> If(Low(Trim(x)) \in {"true", "false"}, V(<<Low(Trim(x))>>, {}))
    [] k = "rseq" -> If(Seqn(Trim(x)), V(<<Canon(Trim(x))>>, {}))
    [] k = "rack" -> LET w == Words(x) IN If(Len(w) = 3 /\ Seqn(w[1]) /\ Seqn(w[2]) /\ OkMethod(w[3]), V(<<Canon(w[1]), Canon(w[2]), Up(w[3])>>, {}))
    [] k = "date" -> If(~Has(x, Ctl) /\ LooksDate(x), V(<<x>>, {}))
    [] k = "datel" -> <<V(<<IF ~Has(x, Ctl) /\ Len(x) <= 128 /\ LooksDate(x) THEN x ELSE "now">>, {})>>
MaxLen(k) == CASE k \in {"reason", "replaces"} -> 1024 [] k = "rp" -> 512 [] k \in {"rseq", "rack", "date"} -> 128 [] k = "refersub" -> 16 [] OTHER -> 100000
Read(k, x) == IF Len(x) > MaxLen(k) THEN << >> ELSE Value(k, x)
Written(k) == k \notin {"event", "substate", "access", "nets", "geoerr", "georoute", "datel"}

\* ------------------------------------------------------------ building
MakeValue(k, d, ps, via) ==
  CASE k = "event" -> If(OkEvent(d, ps), V(d, PSet(ps)))
    [] k = "substate" -> If(OkState(d, ps), V(<<StateOf(d[1])>>, PSet(ps)))
    [] k = "reason" -> If(OkReason(d, ps), V(<<Protocol(d[1])>>, PSet(ps)))
    [] k = "replaces" -> If(OkReplaces(d), V(d, {}))
    [] k = "access" -> If(OkAccess(d, ps), V(d, PSet(ps)))
    [] k = "nets" -> If(OkNets(d), V(d, {}))
    [] k = "geoerr" -> If((d[1] # "" => OkCode(d[1])) /\ (Len(d) = 2 => OkDesc(d[2])) /\ AllPs(ps, TokPar), V(d, PSet(ps)))
    [] k = "georoute" -> If(AllPs(ps, TokPar), V(<< >>, PSet(ps)))
    [] k = "mime" -> If(OkMime(d, ps), Mime(d, ps))
    [] k = "tokens" -> LET q == IF via = "add" THEN MapSeq(d, Trim) ELSE d IN If(OkTokens(q), V(q, {}))
    [] k \in {"etag", "ifmatch"} -> If(Tok(d[1], 128), V(d, {}))
    [] k = "rp" -> If(OkRp(d), V(d, {}))
    [] k = "subject" -> If(OkSubject(d[1]), V(d, {}))
    [] k = "refersub" -> <<V(d, {})>>
    [] k = "rseq" -> If(Seqn(d[1]), V(d, {}))
    [] k = "rack" -> If(Seqn(d[1]) /\ Seqn(d[2]) /\ OkMethod(d[3]), V(<<d[1], d[2], Up(d[3])>>, {}))
    [] k = "date" -> <<V(<<DateText(Val(d[1]), Val(d[2]))>>, {})>>

\* ------------------------------------------------------------ writing
WritePar(p, W(_)) == ";" \o p.n \o (IF p.v = << >> THEN "" ELSE "=" \o W(p.v[1]))
WritePs(ps, W(_)) == Concat(MapSeq(AnySeq(ps), LAMBDA p : WritePar(p, W)))
TokOrQuote(v) == IF IsToken(v) THEN v ELSE Quote(v)
Write(k, v) ==
  CASE k = "reason" -> v.d[1] \o WritePs(v.ps, Quote)
    [] k = "mime" -> v.d[1] \o "/" \o v.d[2] \o WritePs(v.ps, TokOrQuote)
    [] k = "replaces" -> v.d[1] \o ";to-tag=" \o v.d[2] \o ";from-tag=" \o v.d[3] \o (IF v.d[4] = "yes" THEN ";early-only" ELSE "")
    [] k \in {"tokens", "allow"} -> Join(v.d, ", ")
    [] k = "rp" -> Join([i \in 1..(Len(v.d) \div 2) |-> v.d[2 * i - 1] \o "." \o v.d[2 * i]], ", ")
    [] k = "rack" -> Join(v.d, " ")
    [] OTHER -> v.d[1]
Probes == <<"INVITE", "invite", "100rel", "x">>
Extra(k, v) ==
  CASE k = "event" -> <<Opt(Get(v.ps, "id"))>>
    [] k = "substate" -> <<IF v.d[1] \in States THEN v.d[1] ELSE "other">>
    [] k = "reason" -> LET c == Cause(v.ps) q == v.d[1] = "Q.850" IN
         <<Opt(c), Opt(Get(v.ps, "text")), Yes(q), Yes(v.d[1] = "SIP"), IF q /\ c # << >> /\ c[1] \in DOMAIN Q850 THEN Q850[c[1]] ELSE "-">>
    [] k \in {"tokens", "allow"} -> MapSeq(Probes, LAMBDA y : Yes(\E i \in DOMAIN v.d : Low(v.d[i]) = Low(y)))
    [] k \in {"prio", "priol"} -> IF v.d[1] \in DOMAIN Levels THEN <<Levels[v.d[1]], "yes">> ELSE <<"-", "no">>
    [] k \in {"date", "datel"} -> <<IF v.d[1] = "now" THEN "-" ELSE Moment(v.d[1])>>
    [] OTHER -> << >>
(* k is in a value v, written as anything that reads as v *)
Shown(s, k, v, a) ==
  LET x == IF ~Written(k) THEN ""
           ELSE IF "obs" \in DOMAIN a /\ a.obs.r = "val" /\ Value(k, a.obs.x) = <<v>> THEN a.obs.x ELSE Write(k, v)
      last == IF Written(k) THEN <<[k |-> k, x |-> x]>> ELSE s.last
  IN {[s |-> [s EXCEPT !.last = last], obs |-> [r |-> "val", d |-> v.d, ps |-> v.ps, x |-> x, t |-> Extra(k, v)]]}
Show(s, k, v, a) == IF v = << >> THEN {[s |-> s, obs |-> R("err")]} ELSE Shown(s, k, v[1], a)
Keep(s, o) == {[s |-> s, obs |-> o]}

(* Max-Forwards lines of a message that is passed on *)
PassOn(h) ==
  IF h = << >> THEN [r |-> "mf", n |-> "69", h |-> <<"69">>]
  ELSE LET x == Trim(h[1]) IN
       IF ~Num(x, U8) THEN [r |-> "mf", n |-> "invalid", h |-> h]
       ELSE IF Canon(x) = "0" THEN [r |-> "mf", n |-> "exhausted", h |-> h]
       ELSE [r |-> "mf", n |-> ToString(Val(x) - 1), h |-> <<ToString(Val(x) - 1)>> \o Tail(h)]
Post(s, a) ==
  CASE a.op = "read" -> Show(s, a.k, TLCEval(Read(a.k, a.x)), a)
    [] a.op = "make" -> Show(s, a.k, TLCEval(MakeValue(a.k, a.d, a.ps, a.via)), a)
    [] a.op = "again" -> IF s.last = << >> THEN Keep(s, R("none")) ELSE Show(s, s.last[1].k, TLCEval(Read(s.last[1].k, s.last[1].x)), a)
    [] a.op = "q850" -> LET c == Canon(a.n) IN
         Show(s, "reason", If(c \in DOMAIN Q850, V(<<"Q.850">>, {[n |-> "cause", v |-> <<c>>], [n |-> "text", v |-> <<Q850[c]>>]})), a)
    [] a.op = "sipr" ->
         LET t == IF a.text # << >> THEN a.text[1] ELSE IF a.n \in DOMAIN Phrases THEN Phrases[a.n] ELSE "Unknown" IN
         Show(s, "reason", If(Text(t, MaxPVal), V(<<"SIP">>, {[n |-> "cause", v |-> <<a.n>>], [n |-> "text", v |-> <<t>>]})), a)
    [] a.op = "next" -> Show(s, "rseq", If(Seqn(a.n) /\ a.n # MaxInt31, V(<<ToString(Val(a.n) + 1)>>, {})), a)
    [] a.op = "match" -> Keep(s, R(IF Tok(a.a, 128) /\ Tok(a.b, 128) THEN Yes(a.a = a.b) ELSE "err"))
    [] a.op = "mf" -> Keep(s, PassOn(a.h))
    [] a.op = "branch" -> Keep(s, R(Yes(Len(a.x) \in 8..256 /\ Upto(a.x, 7) = "z9hG4bK" /\ All(a.x, TokenChars))))
Norm(e) == IF e.obs.r = "val" THEN [e.obs EXCEPT !.ps = Range(@)] ELSE e.obs
StateOK(s) == Len(s.last) <= 1
=============================================================================
