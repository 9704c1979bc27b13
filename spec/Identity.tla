------------------------------ MODULE Identity ------------------------------
(***************************************************************************)
(* Caller identity: signed tokens (RFC 8225), the header that carries them  *)
(* (RFC 8224) and the certificates their keys are trusted by (RFC 5280).    *)
(*                                                                         *)
(* cfg: [kinds, certs]  the kind of each key; each certificate is           *)
(*      [key, name, ikey, iname, ca, plen, nb, na]: its key and name, the   *)
(*      key and name it is issued with, whether it may issue others (with   *)
(*      at most plen below it; -1 for no limit), its first and last second. *)
(* A token is [h, c, txt, key, signed, sig, form]: the header and claims    *)
(* as JSON, the way they are written, the key that signed, the content it   *)
(* signed, whether the signature is as it was made, and whether the three   *)
(* parts are encoded as they must be.                                       *)
(* JSON: [t, v] of kind "s" text, "n" number (as written), "z" null, "b"    *)
(* boolean, "o" object (pairs in order), "l" list.                          *)
(***************************************************************************)
EXTENDS Text

InitState(cfg) == [cfg |-> cfg, tok |-> None]
R(x) == [r |-> x]
MaxHeader == 8192

(* ------------------------------------------------------------ JSON *)
At(o, k) == {i \in DOMAIN o : o[i][1] = k}
Once(o, ks) == \A k \in ks : Cardinality(At(o, k)) <= 1
Get(o, k) == IF At(o, k) = {} THEN [t |-> "z"] ELSE o[CHOOSE i \in At(o, k) : TRUE][2]
OptStr(x) == x.t \in {"z", "s"}
Str(x) == IF x.t = "s" THEN <<x.v>> ELSE None
I64 == "9223372036854775807"
IsInt64(x) == IF x # "" /\ Ch(x, 1) = "-" THEN Num(From(x, 2), "9223372036854775808") ELSE Num(x, I64)

HeaderOK(x) == /\ x.t = "o" /\ Once(x.v, {"alg", "typ", "ppt", "x5u"})
               /\ Get(x.v, "alg").t = "s" /\ Get(x.v, "x5u").t = "s" /\ OptStr(Get(x.v, "typ")) /\ OptStr(Get(x.v, "ppt"))
TnOK(x) == x.t = "z" \/ (x.t = "o" /\ Once(x.v, {"tn"}) /\ OptStr(Get(x.v, "tn")))
TnsOK(x) == x.t = "z" \/ (x.t = "o" /\ Once(x.v, {"tn"}) /\ LET l == Get(x.v, "tn") IN l.t = "z" \/ (l.t = "l" /\ \A i \in DOMAIN l.v : l.v[i].t = "s"))
ClaimsOK(x) == /\ x.t = "o" /\ Once(x.v, {"attest", "orig", "dest", "iat", "origid"})
               /\ OptStr(Get(x.v, "attest")) /\ (Get(x.v, "attest").t = "s" => Get(x.v, "attest").v \in {"A", "B", "C"})
               /\ TnOK(Get(x.v, "orig")) /\ TnsOK(Get(x.v, "dest")) /\ OptStr(Get(x.v, "origid"))
               /\ Get(x.v, "iat").t \in {"z", "n"} /\ (Get(x.v, "iat").t = "n" => IsInt64(Get(x.v, "iat").v))
Within(x, k) == IF x.t = "o" THEN Get(x.v, k) ELSE x

Written == {"", "space"}                \* ways to write JSON that still are JSON
Decodes(t) == t.form /\ t.txt[1] \in Written /\ t.txt[2] \in Written /\ HeaderOK(t.h) /\ ClaimsOK(t.c)
Alg(t) == Get(t.h.v, "alg").v
Fields(t) ==
  LET h == t.h.v c == t.c.v tns == Within(Get(c, "dest"), "tn")
  IN [r |-> "tok", alg |-> Alg(t), typ |-> Str(Get(h, "typ")), ppt |-> Str(Get(h, "ppt")), x5u |-> Get(h, "x5u").v,
      attest |-> Str(Get(c, "attest")), orig |-> Str(Within(Get(c, "orig"), "tn")),
      dest |-> IF tns.t = "l" THEN [i \in DOMAIN tns.v |-> tns.v[i].v] ELSE << >>,
      iat |-> IF Get(c, "iat").t = "n" THEN <<Get(c, "iat").v>> ELSE None, origid |-> Str(Get(c, "origid"))]
Decoded(t) == IF Decodes(t) THEN Fields(t) ELSE R("err")

(* ------------------------------------------------------------ making and changing tokens *)
RECURSIVE Same(_, _)
Same(x, y) == /\ x.t = y.t
              /\ CASE x.t = "z" -> TRUE
                   [] x.t = "l" -> Len(x.v) = Len(y.v) /\ \A i \in DOMAIN x.v : Same(x.v[i], y.v[i])
                   [] x.t = "o" -> Len(x.v) = Len(y.v) /\ \A i \in DOMAIN x.v : x.v[i][1] = y.v[i][1] /\ Same(x.v[i][2], y.v[i][2])
                   [] OTHER -> x.v = y.v
Put(o, f, v) == IF At(o, f) = {} THEN Append(o, <<f, v>>) ELSE [o EXCEPT ![CHOOSE i \in At(o, f) : \A j \in At(o, f) : i <= j] = <<f, v>>]
Del(o, f) == SelectSeq(o, LAMBDA p : p[1] # f)
Obj(o) == [t |-> "o", v |-> o]
Tamper(s, t, m) ==
  CASE m.k = "put" -> IF m.s = 1 THEN [t EXCEPT !.h = Obj(Put(t.h.v, m.f, m.v))] ELSE [t EXCEPT !.c = Obj(Put(t.c.v, m.f, m.v))]
    [] m.k = "del" -> IF m.s = 1 THEN [t EXCEPT !.h = Obj(Del(t.h.v, m.f))] ELSE [t EXCEPT !.c = Obj(Del(t.c.v, m.f))]
    [] m.k = "text" -> [t EXCEPT !.txt[m.s] = m.how]
    [] m.k = "sig" -> [t EXCEPT !.sig = FALSE]
    [] m.k = "prevsig" -> [t EXCEPT !.key = s.tok[1].key, !.signed = s.tok[1].signed, !.sig = s.tok[1].sig]
    [] m.k \in {"enc", "parts"} -> [t EXCEPT !.form = FALSE]
RECURSIVE TamperAll(_, _, _)
TamperAll(s, t, q) == IF q = << >> THEN t ELSE TamperAll(s, Tamper(s, t, q[1]), Tail(q))
Made(h, c, k) == [h |-> h, c |-> c, txt |-> <<"", "">>, key |-> k, signed |-> [h |-> h, c |-> c, txt |-> <<"", "">>], sig |-> TRUE, form |-> TRUE]
JStr(x) == [t |-> "s", v |-> x]
SignHeader(e) == Obj(<< <<"alg", JStr("ES256")>>, <<"ppt", JStr("shaken")>>, <<"typ", JStr("passport")>>, <<"x5u", JStr(e.x5u)>> >>)
SignClaims(e) == Obj(<< <<"attest", JStr(e.attest)>>, <<"dest", Obj(<< <<"tn", [t |-> "l", v |-> [i \in DOMAIN e.dest |-> JStr(e.dest[i])]]>> >>)>>,
                        <<"iat", [t |-> "n", v |-> e.iat]>>, <<"orig", Obj(<< <<"tn", JStr(e.orig)>> >>)>> >>
                     \o [i \in DOMAIN e.origid |-> <<"origid", JStr(e.origid[i])>>])
Genuine(t) == t.sig /\ t.signed.txt = t.txt /\ Same(t.signed.h, t.h) /\ Same(t.signed.c, t.c)

(* ------------------------------------------------------------ the header *)
(* split at semicolons that stand neither in angle brackets nor in quotes   *)
RECURSIVE Semi(_, _, _)
Semi(x, i, in) ==
  IF i > Len(x) THEN i
  ELSE LET c == Ch(x, i) IN
       CASE in = "q" -> IF c = "\\" THEN Semi(x, i + 2, "q") ELSE Semi(x, i + 1, IF c = "\"" THEN "" ELSE "q")
         [] in = "a" -> Semi(x, i + 1, IF c = ">" THEN "" ELSE "a")
         [] OTHER -> IF c = ";" THEN i ELSE Semi(x, i + 1, IF c = "\"" THEN "q" ELSE IF c = "<" THEN "a" ELSE "")
RECURSIVE Pieces(_)
Pieces(x) == LET j == Semi(x, 1, "") IN IF j > Len(x) THEN <<x>> ELSE <<Upto(x, j - 1)>> \o Pieces(From(x, j + 1))
Ends(x, a, b) == Len(x) >= 2 /\ Ch(x, 1) = a /\ Ch(x, Len(x)) = b
Inside(x) == IF Len(x) = 2 THEN "" ELSE SubSeq(x, 2, Len(x) - 1)
Unquoted(x) == IF Ends(x, "\"", "\"") THEN Inside(x) ELSE x
RECURSIVE Params(_, _)
Params(q, h) ==
  IF q = << >> THEN h
  ELSE LET p == Trim(q[1]) j == To(p, {"="}, 1)
           k == Low(Trim(Upto(p, j - 1))) v == Trim(From(p, j + 1))
       IN IF j > Len(p) THEN Params(Tail(q), h)
          ELSE IF k = "info" THEN IF Ends(v, "<", ">") THEN Params(Tail(q), [h EXCEPT !.info = <<Trim(Inside(v))>>]) ELSE R("err")
          ELSE IF k = "alg" THEN Params(Tail(q), [h EXCEPT !.alg = <<Unquoted(v)>>])
          ELSE IF k = "ppt" THEN Params(Tail(q), [h EXCEPT !.ppt = <<Unquoted(v)>>])
          ELSE Params(Tail(q), h)
NoParams == [r |-> "hdr", info |-> None, alg |-> None, ppt |-> None]
(* pre and post stand around the token; fill is the total length it is brought to *)
Header(s, e) ==
  LET q == Pieces(e.post) IN
  IF e.fill > MaxHeader \/ s.tok = None \/ ~All(e.pre, Blank) \/ ~Decodes(s.tok[1]) THEN {R("err")}
  \* a longer last part makes another token, if any
  ELSE IF Trim(q[1]) # "" THEN {R("err"), R("other token")}
  ELSE {Params(Tail(q), NoParams)}

(* ------------------------------------------------------------ certificates *)
(* whether certificate i, with n issuing certificates below it, leads to an anchor *)
RECURSIVE Path(_, _, _, _, _, _)
Path(cs, i, n, left, anchors, now) ==
  LET c == cs[i] By(j) == cs[j].name = c.iname /\ cs[j].key = c.ikey
  IN /\ c.nb <= now /\ now <= c.na
     /\ \/ \E j \in anchors : By(j)
        \/ \E j \in left : By(j) /\ cs[j].ca /\ (cs[j].plen < 0 \/ n <= cs[j].plen) /\ Path(cs, j, n + 1, left \ {j}, anchors, now)
Trusted(s, e) == LET cs == s.cfg.certs IN /\ e.junk = "" /\ ~cs[e.leaf].ca /\ Path(cs, e.leaf, 0, Range(e.inters), Range(e.anchors), e.now)

Signed(s, k) == LET t == s.tok[1] IN Alg(t) = "ES256" /\ s.cfg.kinds[k] = "p256" /\ t.key = k /\ Genuine(t)
YesNo(b) == R(IF b THEN "ok" ELSE "no")
Usable(s) == s.tok # None /\ Decodes(s.tok[1])

Post(s, e) ==
  CASE e.op = "token" -> LET t == TamperAll(s, Made(e.h, e.c, e.key), e.tam) IN {[s |-> [s EXCEPT !.tok = <<t>>], obs |-> Decoded(t)]}
    [] e.op = "sign" ->
         IF e.dest = << >> \/ e.orig = "" THEN {[s |-> s, obs |-> R("err")]}
         ELSE LET t == TamperAll(s, Made(SignHeader(e), SignClaims(e), e.key), e.tam)
              IN {[s |-> [s EXCEPT !.tok = <<t>>],
                   obs |-> [r |-> "signed", d |-> Decoded(t), hv |-> Params(Tail(Pieces(";info=<" \o e.x5u \o ">;alg=ES256;ppt=shaken")), NoParams)]]}
    [] e.op = "header" -> {[s |-> s, obs |-> o] : o \in Header(s, e)}
    [] e.op = "verify" -> {[s |-> s, obs |-> IF ~Usable(s) THEN R("none") ELSE YesNo(e.form = "" /\ Signed(s, e.key))]}
    [] e.op = "chain" -> {[s |-> s, obs |-> IF ~Usable(s) THEN R("none") ELSE YesNo(Trusted(s, e) /\ Signed(s, s.cfg.certs[e.leaf].key))]}
Norm(e) == e.obs
StateOK(s) == s.tok = None \/ (s.tok[1].form \in BOOLEAN /\ s.tok[1].sig \in BOOLEAN)
=============================================================================
