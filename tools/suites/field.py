from lib import tset
from .base import Suite
from .addr import quote

TOKENS = ["1", "abc", "presence", "A.b-1!%*_+`'~", "dialog", "Dialog", "x" * 32, "x" * 33, "x" * 64, "x" * 65, "a b", "", "a;b", "a=b", "a,b", "a\"b", "(x)", "active", "Pending", "TERMINATED", "none"]
GOOD = ["1", "abc", "presence", "A.b-1!%*_+`'~", "dialog", "active", "Pending", "SIP", "q.850", "Sdp", "X-Proto"]
PN = ["id", "ID", "expires", "reason", "Reason", "retry-after", "cause", "text", "TEXT", "cgi-3gpp", "x", "a.b!%*_+`'~-", "early-only", "to-tag", "charset", "n" * 64]
BADPN = ["", "a b", "n" * 65, "a;b", "a=b", "a,b", "a\"b", "a\r\nb", "<x>"]
TV = ["1", "abc-1.2", "deactivated", "16", "017", "65535", "65536", "99999999999", "487", "127", "v" * 256]
PV = TV + ["", "a;b", "a,b", "\"", "\\", "say \"hi\"; x", "a\\\"b", "x y", "a=b", "[::1]:5060", " z ", "y" * 256, "Normal Call Clearing", "<sip:a@b>"]
BADPV = ["y" * 257, "a\r\nb", "a\tb"]
MV = ["utf-8", "\"a;b\"", "\"a\\\"b\"", "\"a\\\\\"", "\"a b\"", "\"\"", "\"a,b=c\"", "1", "v" * 256, "\"" + "v" * 254 + "\"", "\"boundary\""]
BADMV = ["", "a b", "\"a\"b\"", "\"a\\\"", "\"", "\"open", "v" * 257, "\"" + "v" * 255 + "\"", "\"a\tb\"", "a;b", "(x)", "\"a\" b"]
CIDS = ["abc@host", "a1;b2", "a b", "a,b", "x", "x" * 256, "x" * 257, "", "a@b<>:\\/[]?{}()", "a=b", "\"q\"@h", "a\r\nb", "a\tb"]
TAGS = ["1", "tag-1.x", "a;early-only", "a b", "a,b", "t" * 128, "t" * 129, "", "a=b", "a\"b", "from-tag"]
NETS = ["Visited network", "x.example", "a,b", "a;b", "q\"q", "back\\slash", "<a,b>", " ", "", "n" * 256, "n" * 257, "a\tb", "\"x\"", "\\"]
CODES = ["100", "500", "a.b-1", "", "c" * 16, "c" * 17, "a b", "1_0", "é"]
DESCS = ["Cannot process", "a;b", "", "d" * 512, "d" * 513, "q\"q", "b\\s", "a\tb", "a,b=c"]
LOWER = ["event", "substate", "access", "geoerr", "georoute"]
H02 = ["event", "substate", "reason", "replaces", "access", "nets", "geoerr", "georoute", "mime"]
H03 = ["tokens", "allow", "etag", "ifmatch", "rp", "prio", "priol", "subject", "refersub", "rseq", "rack", "date", "datel"]
METHODS = ["INVITE", "invite", "Update", "FOO", "foo-1", "M" * 32, "M" * 33, "a^b|c", "", "IN VITE", "x:y"]
NUMS = ["0", "1", "2", "255", "00070", "2147483646", "2147483647"]
BADNUMS = ["2147483648", "4294967295", "4294967296", "99999999999999999999", "", "-1", "1.0", "abc", "1a", "0x10", "1 2"]
PRIOS = ["emergency", "Urgent", "NORMAL", "non-urgent", "x-high", "a^b|c", "p" * 32, "p" * 33, "", " urgent ", "ur gent", "a;b", "none", "nonurgent", "urgent\t"]
SUBJ = ["Hello", " ", "", "\t", "a\tb", " x ", "x" * 256, "x" * 257, "é", "a\r\nb", "Need a \"box\"; <b>?", "~!@#$%^&*()", "a\x7fb", "\x01"]
DAY = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
DATES = ["Thu, 01 Jan 1970 00:00:00 GMT", "Sun, 06 Nov 1994 08:49:37 GMT", "Tue, 29 Feb 2000 12:00:00 GMT", "Fri, 31 Dec 2100 23:59:59 GMT", "Mon, 29 Feb 2100 12:00:00 GMT", "Mon, 06 Nov 1994 08:49:37 GMT", "Wed, 29 Feb 2023 00:00:00 GMT",
         "Sun, 6 Nov 1994 08:49:37 GMT", "Sun, 06 Nov 1994 08:49:37", "Sun, 06 Nov 1994 24:00:00 GMT", "Sun, 06 Nov 1994 08:60:37 GMT", "Sun, 06 Nov 1994 08:49:60 GMT", "Sun, 00 Nov 1994 08:49:37 GMT", "Sun, 32 Nov 1994 08:49:37 GMT",
         "Sun, 06 nov 1994 08:49:37 GMT", "Sun 06 Nov 1994 08:49:37 GMT", "Sunday, 06-Nov-94 08:49:37 GMT", "Sun, 06 Nov 1969 08:49:37 GMT", "Sat, 01 Jan 2101 00:00:00 GMT", "Sun,  06 Nov 1994 08:49:37 GMT", " Sun, 06 Nov 1994 08:49:37 GMT ",
         "Sun, 06 Nov 1994 08:49:37 UTC", "Sun, 06 Nov 1994 08:49:37 GMT x", "Sun, 06 Nov 1994 8:49:37 GMT", "Sun, 06 Nov 1994 08:49 GMT", "", "Sun, 06 Nov 1994 08:49:37 +0000", "Tue, 19 Jan 2038 03:14:08 GMT", "Sun, 06 Nov 1994 08:49:37 G",
         "Sun, 06 Nov 1994 08:49:37 GMT" + " " * 99, "Sun, 06 Nov 1994 08:49:37 GMT" + " " * 100, "Sun, 06 Nov 1994\r\n08:49:37 GMT"]
MF = ["70", "0", "1", "255", "256", " 7 ", "007", "", "-1", "abc", "7a", "+7", "65535", "65536", "99999999999", "0000000000000000000009", "1 2", "000"]
BR = ["z9hG4bK", "z9hG4bKa", "Z9hG4bKa", "z9hG4bK776asdhds", "z9hG4bK" + "b" * 249, "z9hG4bK" + "b" * 250, "z9hG4bK a", "z9hG4bKa;b", "z9hG4bK-.!%*_+`'~", "", "abc", "z9hG4bKé", "az9hG4bK", "z9hG4bKa\t", "z9hG4bka"]


class Field(Suite):
    name = "field"
    module = "FieldHdr"
    props = ("H02", "H03")

    def mc(self, tier, prop):
        base = dict(module="M_FieldHdr", view="View", emit=True, inv=["TypeOK", "RoundTrip", "Clean", "Bounded"])
        AG = {"op": "again"}
        c = lambda acts: dict(base, consts={"Acts": tset([AG] + acts), "Depth": 3})
        mk = lambda k, d, ps=(), via="new": {"op": "make", "k": k, "d": d, "ps": [{"n": n, "v": v} for n, v in ps], "via": via}
        rd = lambda k, *xs: [{"op": "read", "k": k, "x": x} for x in xs]
        if prop == "H02":
            names = [mk(k, [d]) for k in ("event", "substate", "reason", "access") for d in TOKENS] + [mk("mime", [a, b]) for a, b in [("text", x) for x in TOKENS] + [(x, "plain") for x in TOKENS]]
            vals = [mk(k, [d], [("x", [v])]) for k, d in (("event", "e"), ("substate", "active"), ("reason", "SIP"), ("access", "IEEE-802.11"), ("geoerr", "100")) for v in PV + BADPV] + [mk("georoute", [], [("x", [v])]) for v in PV] \
                + [mk("mime", ["Text", "plain"], [("x", [v])]) for v in MV + BADMV]
            pn = [mk(k, [d], [(n, ["1"])]) for k, d in (("event", "e"), ("substate", "x"), ("reason", "Q.850"), ("access", "a"), ("geoerr", "")) for n in BADPN + PN[2:]] + [mk("mime", ["a", "b"], [(n, ["1"])]) for n in BADPN + ["X"]] \
                + [mk(k, [d], [("x", ["1"]), ("X", [])]) for k, d in (("event", "e"), ("reason", "SIP"), ("geoerr", "1"))] + [mk("event", ["e"], [("id", [v])]) for v in TOKENS[:6] + ["i" * 256, "i" * 257]]
            rep = [mk("replaces", [c_, "1", "2", "no"]) for c_ in CIDS] + [mk("replaces", ["a@b", t, "2", "yes"]) for t in TAGS] + [mk("replaces", ["a@b", "1", t, "no"]) for t in TAGS] \
                + rd("replaces", "a@b;to-tag=1;from-tag=2", " a@b ; From-Tag = 2 ; TO-TAG=1 ; EARLY-ONLY ", "a@b;to-tag=1", "a@b;from-tag=1", "a@b;to-tag=1;to-tag=1;from-tag=2", "a@b;to-tag=1;from-tag=2;x=1", "a@b;to-tag=1;from-tag=2;", "", ";to-tag=1;from-tag=2",
                     "a@b;to-tag=1;from-tag=2;early-only=true", "a b;to-tag=1;from-tag=2", "a@b;to-tag=;from-tag=2", "a@b;to-tag=1=3;from-tag=2", "a@b;to-tag=1;from-tag=2;early-only;early-only", "a@b;to-tag=1;from-tag=2" + " " * 1001, "a@b;to-tag=1;from-tag=2" + " " * 1002)
            rsn = rd("reason", "SIP;cause=487;text=\"a;b \\\"c\\\"\"", "q.850 ; cause = 16 ; text=\"x\\\\\"", "sip;cause", "SIP;cause=16;Cause=17", "SIP;text=\"open", "SIP;text=\"a\\\"", "S P;cause=1", "SIP;;cause=1;", "", ";cause=1", "SIP, Q.850;cause=1", "SIP;a b=1", "Q.850;cause=99", "SIP;text=a\"b",
                     "SIP" + " " * 1021, "SIP" + " " * 1022, "SIP" + "".join(";p%d" % i for i in range(20)), "SIP" + "".join(";p%d" % i for i in range(21))) \
                + [{"op": "q850", "n": str(n)} for n in (0, 1, 4, 16, 26, 31, 102, 103, 127, 128)] + [{"op": "sipr", "n": n, "text": t} for n in ("200", "486", "603", "699", "401", "183") for t in ([], ["q\"\\;"], ["t" * 257])]
            oth = rd("event", "presence;id=1", "presence; ID = \"a1\" ;x", "presence;id", "presence;id=1;id=1", "presence;x=1;X=2", "", "a b", "presence;x=\"a b\"", "presence;;id=7") + rd("substate", "ACTIVE;expires=60", "terminated ; reason = deactivated", "foo;x", "", "active;expires=1;Expires=2", "active;x=\"1;2\"") \
                + rd("access", "3GPP-GERAN; cgi-3gpp = \"a;b\\\"\"", "IEEE-802.11;x", "", ";x=1", "a;x=1;X=2", "a;x y=1", "a \"b;c\" d;e") + rd("nets", "\"a,b\", c", "a, ,b", "\"q\\\"q\"", "", "\"\"", "\" \"", "a,\"open", ",".join("abcdefghijklmnopqrst"), ",".join("abcdefghijklmnopqrstu"), "<a,b>,c") \
                + rd("geoerr", "100;reason=\"a;b\"", "a b;x;X=2;reason=one;reason=\"two three\"", "", ";x=\"a b\";y", "200 ; reason = \"q\\\"q\"") + rd("georoute", "x=1;y;Z=\"a b\";x=2", "", "yes") + [mk("nets", [x]) for x in NETS] + [mk("nets", []), mk("nets", ["a", "b,c"]), mk("geoerr", ["", "d"])] \
                + [mk("geoerr", [x]) for x in CODES] + [mk("geoerr", ["1", x]) for x in DESCS]
            mim = rd("mime", "Text/Plain", "application/sdp;charset=\"a;b\"", "text / plain ; charset = utf-8", "text", "text/plain/x", "/plain", "text/", "text/plain;charset", "text/plain;x=1;X=2", "text/plain;;", "multipart/mixed;boundary=\"a\\\"b;c\\\\\"", "text/plain;x=\"a\"b\"", "text/plain;x=\"a\\\"", "", "te xt/plain", "text/plain;x=",
                     "text/plain" + "".join(";p%d=1" % i for i in range(20)), "text/plain" + "".join(";p%d=1" % i for i in range(21)))
            return [c(names), c(vals), c(pn), c(rep + rsn), c(oth + mim)]
        tk = rd("tokens", "INVITE, ack", "x", "", " ", "a,,b", ",", "a b", "a;b", " 100REL ,\tINVITE", "t" * 64, "t" * 65, ",".join(["a"] * 50), ",".join(["a"] * 51)) + rd("allow", "INVITE,ACK", "", "a,,b", "100rel", "a b") \
            + [mk("tokens", d, via=v) for d in ([], ["a"], ["INVITE", "x"], [" a "], ["a b"], [""], ["t" * 65], ["a"] * 50, ["a"] * 51, ["a,b"], ["é"]) for v in ("new", "add")]
        et = [a for x in ["abc", "", "a b", " a", "a;b", "\"q\"", "e" * 128, "e" * 129, "A.b-1!%*_+`'~", "é"] for a in rd("etag", x) + rd("ifmatch", x) + [mk("etag", [x]), mk("ifmatch", [x])]] \
            + [{"op": "match", "a": a, "b": b} for a in ("abc", "Abc", "abcd", "", "e" * 128) for b in ("abc", "abcd", "e" * 128, "a b")]
        rp = rd("rp", "dsn.flash", "dsn.flash, q735.0 ,wps.1", "", ",", "dsn", "dsn.", ".flash", "a.b.c", "a b.c", " a.b ", "n." + "p" * 64, "n." + "p" * 65, ",".join(["a.b"] * 10), ",".join(["a.b"] * 11), "a.b" + " " * 509, "a.b" + " " * 510) \
            + [mk("rp", d, via=v) for d in ([], ["dsn", "flash"], ["a", "b", "c", "d"], ["a.b", "c"], ["a", "b.c"], ["a,b", "c"], ["", "x"], ["x", ""], ["a b", "c"], ["n" * 64, "p" * 64], ["n" * 65, "p"], ["n", "p" * 65], ["a", "b"] * 10, ["a", "b"] * 11, ["n" * 30, "p" * 30] * 10) for v in ("new", "add")]
        pr = rd("prio", *PRIOS) + rd("priol", *PRIOS) + rd("subject", *SUBJ) + [mk("subject", [x]) for x in SUBJ] + rd("refersub", "true", "FALSE", " true ", "", "yes", "true" + " " * 12, "true" + " " * 13, "tru e") + [mk("refersub", [x], via=v) for x in ("true", "false") for v in ("new", "add")]
        sq = rd("rseq", *NUMS, *BADNUMS, " 7 ", "1" + " " * 127, "1" + " " * 128) + [mk("rseq", [n]) for n in ("0", "1", "2147483647", "2147483648", "4294967295")] + [{"op": "next", "n": n} for n in ("0", "1", "9", "2147483646", "2147483647", "4294967295")] \
            + rd("rack", *["1 2 " + m for m in METHODS], "1 2", "0 1 INVITE", "1 0 INVITE", " 1\t2  INVITE ", "1 2 INVITE x", "2147483648 1 ACK", "1 2147483648 ACK", "a 1 ACK", "007 2 ACK") + [mk("rack", ["1", n, m]) for n in ("0", "5", "2147483648") for m in METHODS]
        dt = rd("date", *DATES) + rd("datel", *DATES[:6]) + [mk("date", [str(n), str(t)]) for n in (0, 1, 58, 59, 789, 790, 1154, 1155, 10956, 11015, 11016, 11017, 19782, 24836, 24837, 47540, 47541, 47846) for t in (0, 86399)]
        mf = [{"op": "mf", "h": h} for h in [[]] + [[x] for x in MF] + [["5", "9"], ["x", "9"]]] + [{"op": "branch", "x": x} for x in BR]
        return [c(tk + et), c(rp + pr), c(sq), c(dt + mf)]

    # ------------------------------------------------------------ generation
    def ps(self, rng, k, bad):
        vals, badv = (MV, BADMV) if k == "mime" else (TV, PV[len(TV):] + BADPV) if k in LOWER and k != "access" and rng.random() > bad else (PV, BADPV)
        q = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            n = rng.choice(BADPN) if rng.random() < bad / 2 else rng.choice(PN)
            v = [] if k != "mime" and rng.random() < 0.2 and n.lower() != "id" else [rng.choice(badv) if rng.random() < bad / 2 else rng.choice(vals)]
            q.append({"n": n, "v": v})
        return q if rng.random() < bad else [p for i, p in enumerate(q) if p["n"].lower() not in [x["n"].lower() for x in q[:i]]]

    def first(self, rng, k, bad):
        pool = TOKENS if rng.random() < bad else GOOD
        if k == "mime":
            return [rng.choice(["text", "application", "Multipart"] if rng.random() > bad else TOKENS), rng.choice(["plain", "SDP", "pidf+xml"] if rng.random() > bad else TOKENS)]
        if k == "replaces":
            return [rng.choice(CIDS if rng.random() < bad else CIDS[:1] + ["x@y.example"]), rng.choice(TAGS if rng.random() < bad else ["1", "t.x"]), rng.choice(TAGS if rng.random() < bad else ["2", "a-b"]), rng.choice(["yes", "no"])]
        if k == "nets":
            return [rng.choice(NETS if rng.random() < bad else NETS[:7]) for _ in range(rng.choice([0, 1, 1, 2, 3] + ([20, 21] if rng.random() < 0.05 else [])))]
        if k == "geoerr":
            return [rng.choice(CODES if rng.random() < bad else CODES[:4])] + ([rng.choice(DESCS if rng.random() < bad else DESCS[:3])] if rng.random() < 0.4 else [])
        if k == "georoute":
            return []
        return [rng.choice(pool)]

    def par(self, rng, k, p):
        if not p["v"]:
            return p["n"]
        v = p["v"][0]
        if k != "mime" and (not (v and all(c.isalnum() or c in "-.!%*_+`'~" for c in v)) or rng.random() < 0.3) and rng.random() < 0.95:
            v = quote(v)
        return p["n"] + rng.choice(["=", "=", "=", " = ", "= "]) + v

    def line(self, rng, k, bad):
        d = self.first(rng, k, bad)
        if k == "replaces":
            q = [rng.choice(["to-tag", "To-Tag"]) + rng.choice(["=", " = "]) + d[1], "from-tag=" + d[2]] + (["early-only"] if d[3] == "yes" else [])
            rng.shuffle(q)
            x = d[0] + "".join(rng.choice([";", " ; "]) + y for y in q)
        elif k == "nets":
            x = rng.choice([", ", ",", " ,"]).join(quote(y) if rng.random() < 0.8 else y for y in d[:20])
        else:
            ps = [self.par(rng, k, p) for p in self.ps(rng, k, bad)]
            if k == "geoerr" and len(d) > 1:
                ps.insert(rng.randrange(len(ps) + 1), rng.choice(["reason", "Reason"]) + "=" + quote(d[1]))
            x = {"mime": rng.choice(["/", "/", " / "]).join(d)}.get(k, d[0] if d else "")
            x = rng.choice([";", "; "]).join([x] * (k != "georoute") + ps)
        if rng.random() < bad / 2 and x:
            i = rng.randrange(len(x))
            x = x[:i] + rng.choice(["", "\"", "\\", ";", " ", "=", ","]) + x[i + rng.choice([0, 1]):]
        return x.replace("\r", "").replace("\n", "").replace("\t", " ").replace("é", "e")

    def many(self, rng, k):
        m = rng.choice([20, 20, 21]) if k != "georoute" else 20
        ps = [{"n": "p%d" % i, "v": ["1"]} for i in range(m)]
        d = {"mime": ["text", "plain"], "georoute": []}.get(k, ["active"])
        if rng.random() < 0.5:
            return {"op": "make", "k": k, "d": d, "ps": ps, "via": rng.choice(["new", "add"])}
        if k == "geoerr":
            ps = ps[:20]
        return {"op": "read", "k": k, "x": ";".join(["/".join(d)] * (k != "georoute") + [p["n"] + "=1" for p in ps])}

    def h02(self, rng):
        bad = rng.choice([0, 0, 0.1, 0.4])
        k = rng.choice(H02)
        x = rng.random()
        if x < 0.02 and k not in ("replaces", "nets"):
            return self.many(rng, k)
        if x < 0.06:
            return rng.choice([{"op": "q850", "n": str(rng.randrange(0, 130))}, {"op": "sipr", "n": str(rng.choice([rng.randrange(100, 700), 486, 200, 404])), "text": rng.choice([[], [], [rng.choice(PV + BADPV)]])}])
        if x < 0.45:
            ps = self.ps(rng, k, bad) if k not in ("replaces", "nets") else []
            if k == "event":
                ids = [p for p in ps if p["n"].lower() == "id"]
                ps = [p for p in ps if p not in ids[1:]]
                for p in ids:
                    p["n"] = "id"
            return {"op": "make", "k": k, "d": self.first(rng, k, bad), "ps": ps, "via": rng.choice(["new", "add"])}
        return {"op": "read", "k": k, "x": self.line(rng, k, bad)}

    def date(self, rng):
        if rng.random() < 0.5:
            w = [rng.choice(DAY) + ",", "%02d" % rng.randrange(1, 32), rng.choice(MON), str(rng.randrange(1970, 2101)), "%02d:%02d:%02d" % (rng.randrange(24), rng.randrange(60), rng.randrange(60)), "GMT"]
            if rng.random() < 0.3:
                import calendar
                try:
                    w[0] = DAY[calendar.weekday(int(w[3]), MON.index(w[2]) + 1, int(w[1]))] + ","
                except ValueError:
                    pass
            return " ".join(w)
        x = rng.choice(DATES)
        if x and rng.random() < 0.3:
            i = rng.randrange(len(x))
            x = x[:i] + rng.choice(["", " ", ":", "0", "9", "a", "Z"]) + x[i + rng.choice([0, 1]):]
        return x

    def h03(self, rng):
        k = rng.choice(H03 + ["mf", "branch", "match", "next"])
        bad = rng.random() < 0.3
        tok = lambda: rng.choice(TOKENS + ["é"] if bad else GOOD + ["INVITE", "invite", "100rel", "100REL", "X"])
        if k == "mf":
            return {"op": "mf", "h": [rng.choice([rng.choice(MF).replace("+", ""), str(rng.randrange(300))]) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]}
        if k == "branch":
            x = rng.choice(BR)
            if x and rng.random() < 0.5:
                i = rng.randrange(len(x))
                x = x[:i] + rng.choice(["", "/", "a", "Z", "@", ":", "^", "("]) + x[i + rng.choice([0, 1]):]
            return {"op": "branch", "x": x.replace("é", "e")}
        if k == "match":
            return {"op": "match", "a": tok(), "b": tok()}
        if k == "next":
            return {"op": "next", "n": rng.choice(["0", "4294967295", "2147483647", str(rng.randrange(1, 2147483647))])}
        make = rng.random() < 0.4
        mk = lambda d: {"op": "make", "k": k, "d": d, "ps": [], "via": rng.choice(["new", "add"])}
        rd = lambda x: {"op": "read", "k": k, "x": x}
        sp = lambda: rng.choice(["", "", " ", "\t"])
        if k in ("tokens", "allow"):
            q = [sp() + tok() + sp() for _ in range(rng.choice([1, 2, 3, 3] + [49, 50, 51] * (rng.random() < 0.1)))]
            q = [x.replace(",", "") if not bad else x for x in q]
            return mk([x if rng.random() < 0.3 else x.strip() for x in q]) if make and k == "tokens" else rd(",".join(q).replace("é", "\u0001"))
        if k in ("etag", "ifmatch"):
            x = rng.choice([tok(), "e" * rng.choice([128, 129])])
            return mk([x]) if make else rd(x)
        if k == "rp":
            part = lambda: rng.choice(["dsn", "flash-override", "q735", "0", "a_b~"]) if not bad else rng.choice(["a.b", "a,b", "", "a b", "n" * 64, "n" * 65, "x"])
            q = [part() for _ in range(2 * rng.choice([1, 1, 2, 3, 10]))]
            return mk(q) if make else rd(rng.choice([",", ", ", " ,", ",,"]).join(q[i] + ("." if rng.random() < 0.97 else "") + q[i + 1] for i in range(0, len(q), 2)))
        if k in ("prio", "priol"):
            return rd(rng.choice(PRIOS + ["".join(rng.choice("emrgncyu-^|") for _ in range(6))]))
        if k == "subject":
            x = rng.choice(SUBJ + ["".join(chr(rng.randrange(32, 127)) for _ in range(12))])
            x = x.replace("é", "\u0001")
            return mk([x]) if make else rd(x)
        if k == "refersub":
            return mk([rng.choice(["true", "false"])]) if make else rd(rng.choice(["true", "False", "TRUE ", " false", "t", "", "true;x", "truefalse", "false" + " " * 11, "false" + " " * 12]))
        n = lambda: rng.choice(NUMS) if not bad else rng.choice(BADNUMS)
        if k == "rseq":
            return mk([rng.choice(["0", "1", "2147483647", "2147483648", str(rng.randrange(2 ** 32))])]) if make else rd(sp() + n() + sp())
        if k == "rack":
            return mk([str(rng.choice([0, 1, 7, 2147483647, 2147483648] if bad else [1, 7, 2147483647])), str(rng.choice([0, 1, 2147483648] if bad else [1, 314159])), rng.choice(METHODS if bad else METHODS[:6])]) if make else rd(sp() + rng.choice([" ", "  ", "\t"]).join([n(), n(), rng.choice(METHODS if bad else METHODS[:6])]) + sp())
        if k == "date" and make:
            return mk([str(rng.randrange(47847)), str(rng.randrange(86400))])
        return rd(self.date(rng))

    def gen(self, rng, tier, prop):
        out = []
        one = self.h02 if prop == "H02" else self.h03
        for _ in range(24000 if tier == "thorough" else 4000):
            ev = []
            for _ in range(rng.choice([1, 2, 4])):
                ev.append(one(rng))
                if rng.random() < 0.6:
                    ev.append({"op": "again"})
            out.append({"cfg": [], "ev": ev})
        return out

    def must_see(self, prop, tier):
        return ["read:val", "read:err", "make:val", "make:err", "again:val"] + (["q850:val", "q850:err", "sipr:val"] if prop == "H02" else ["match:yes", "match:no", "mf:mf", "branch:yes", "branch:no", "next:val"])


SUITES = [Field()]
