from lib import tset
from .base import Suite


def parse(x):
    return {"op": "parse", "x": x}


def chg(f, x="", *v):
    return {"op": "with", "c": {"f": f, "x": x, "v": list(v)}}


V6 = ["2001:db8::1", "::1", "::", "1::", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "::ffff:192.0.2.1", "1:2:3:4:5:6:192.0.2.1", "FE80::A"]
BAD6 = ["gggg::1", "1::2::3", ":::", ":1:2:3:4:5:6:7", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "1:2:3:4::5:6:7:8", "12345::", "192.0.2.1::", "::192.0.2.256",
        "::192.0.2.01", "::1%25eth0", "", "::192.0.2"]
USERS = ["", "alice@", "+1555@", "al%20ice@", "a%25b@", "a:pw@", "a%2541@", "J%C3%A9@", "a%3cb@", "a&=+$,b@"]
BADUSERS = ["@", "a;b@", "a?b@", "a/b@", "a%40b@", "a%3Bb@", "a%00b@", "a b@", "a@b@", "%FF@", "a[b@", "a#b@", "a%0D%0Ab@", "a\"b@"]
HOSTS = ["example.com", "EXAMPLE.com", "192.0.2.1", "%65x.com", "a_b-c", "[::1]", "[2001:DB8::1]", "host:5060", "[::1]:5061", "h:1", "h:65535", "h:00080"]
BADHOSTS = ["", "ex ample", "host:", "host:0", "host:65536", "host:+1", "::1", "[::1", "[::1]x", "[::1]:", "[::1]:0", "[::1]:+5060", "[host]", "h[", "a@b", "h,x",
            "a%2Fb", "h\u007f", "1:2:3", "[]", "[::1]5060"]
PARAMS = ["", ";lr", ";transport=tcp", ";LR;Transport=UDP", ";a=1;A=2", ";x=", ";;lr;", ";m=a%20b", ";p=a&b/c:d[e]", ";n=a=b"]
BADPARAMS = [";=x", ";a b=1", ";a=b c", ";x=a@b", ";a/b", ";x=\"q\"", ";x=<y>", "; lr", ";lr "]
HDRS = ["", "?subject=x", "?a=1&b=2", "?A=1&a=2", "?Route", "?=", "?a=b?c", "?&&a=1", "?x=a%40b", "?a="]
BADHDRS = ["?a=b c", "?a b=c", "?=x", "?a@=1"]
TELS = ["tel:+15551234", "tel:+1-555-(12).34", "TEL:+1;ext=5", "tel:5551234;phone-context=example.com", "tel:555-1;phone-context=+1-5", "tel:*31#;phone-context=a.b",
        "tel:1;PHONE-CONTEXT=a;phone-context=b", "tel:+1;isub", "tel:+1;;x=1;", "tel:+1;X=1;x=2", "tel:+1;a=b=c", "tel:1;phone-context=a;ext=+1"]
BADTELS = ["tel:", "tel:+", "tel:abc", "tel:555", "tel:+1;phone-context=a", "tel:1;phone-context=", "tel:1;phone-context=a..b", "tel:1;phone-context=-a", "tel:1;phone-context=a@b",
           "tel:1;phone-context", "tel:+1 5", "tel: +1", "tel:+1;a b", "tel:+1;=1", "tel:+1#", "tel:1;phone-context=+", "tel:--", "tel+1", "tel:+1;x=<y>"]
ABS = ["http://example.com/a?b=c#d", "urn:service:sos", "mailto:a@b", "a+b-c.1:x", "im:alice@host", "sipx:a@b"]
BADABS = ["", "http", "http:", ":x", "1a:x", "a b:c", "http://a b", "a_b:x", " sip:a@b", "sip:a@b ", "http:\nx", "<sip:a@b>", "sip", "sips:", "sip:", "a\"b:c", "http:a<b"]


class Uri(Suite):
    name = "uri"
    module = "Uri"
    props = ("U01",)

    def mc(self, tier, prop):
        T = tier == "thorough"
        base = dict(module="M_Uri", inv=["TypeOK", "RoundTrip", "NoHeaders", "OneUser"], prop=["Local"], view="View", emit=True)
        grid = ["sip:" + u + h + p + q for u in USERS for h in HOSTS[:8 if T else 5] for p in PARAMS[:: 1 if T else 2] for q in HDRS[:: 1 if T else 3]]
        v6 = ["sip:a@[%s]:5060;x" % x for x in V6 + BAD6] + ["sips:" + u + h + p + q for u in BADUSERS + USERS[:2] for h in BADHOSTS + HOSTS[:2] for p in ["", ";lr"] for q in ["", "?a=1"]]
        rest = ["sips:b@h" + p + q for p in PARAMS + BADPARAMS for q in HDRS + BADHDRS] + TELS + BADTELS + ABS + BADABS
        acts = [chg("host", "b.example"), chg("host", "::2"), chg("user", "c d"), chg("user", "%41"), chg("port", "5070"), chg("noport"), chg("nohdrs"),
                chg("param", "lr"), chg("param", "LR", "on"), chg("param", "x", "a;b"), chg("param", "x", "a@b"), chg("user", "a@b"), chg("host", "a b")]
        tacts = [chg("tparam", "ext", "5"), chg("tparam", "ext", "6;x=1"), chg("tparam", "phone-context", "c.d"), chg("tparam", "Phone-Context", "e.f"),
                 chg("ctx", "+7"), chg("ctx", "a_b"), chg("tparam", "isub"), chg("tparam", "EXT", "7"), chg("nohdrs")]
        starts = ["sip:al%20ice@h:5060;lr?a=1", "sip:[::1];x=1", "sips:A.B", "sip:a%25b@h?Route", "sip:b@h;a=1?x=a@b&y=?"]
        tstarts = ["tel:+1-5;ext=1", "tel:55;phone-context=a", "tel:5-5;PHONE-CONTEXT=z;ext=2"]
        short = ["sip:a@b:1;c=d?e=f", "sip:[::1]:80", "tel:+1-2;x=y", "tel:1;phone-context=a.b", "ab:c"]
        return [
            dict(base, consts={"Texts": tset(grid), "Edit": "FALSE", "EditChars": tset([]), "Acts": tset([]), "Depth": 1}),
            dict(base, consts={"Texts": tset(v6 + rest), "Edit": "FALSE", "EditChars": tset([]), "Acts": tset([]), "Depth": 1}),
            dict(base, consts={"Texts": tset(short), "Edit": "TRUE", "EditChars": tset(list("@:;?=&%[]/ <\"+-.0aZ#é,") if not T else list("@:;?=&%[]/ <>\"+-.0129aAfZ#é,_~'()*$!|^`{}\\")),
                              "Acts": tset([]), "Depth": 1}),
            dict(base, consts={"Texts": tset(starts), "Edit": "FALSE", "EditChars": tset([]), "Acts": tset(acts), "Depth": 5 if T else 4}),
            dict(base, consts={"Texts": tset(tstarts), "Edit": "FALSE", "EditChars": tset([]), "Acts": tset(tacts), "Depth": 6 if T else 5}),
        ]

    # ------------------------------------------------------------ generation
    def text(self, rng):
        x = rng.random()
        pick = lambda g, b, p=0.12: rng.choice(b) if rng.random() < p else rng.choice(g)
        if x < 0.6:
            t = rng.choice(["sip:", "sip:", "sips:", "SIP:", "SipS:"]) + pick(USERS, BADUSERS)
            t += rng.choice(["[%s]" % pick(V6, BAD6) + rng.choice(["", ":5060"]), pick(HOSTS, BADHOSTS), pick(HOSTS, BADHOSTS)])
            t += "".join(pick(PARAMS, BADPARAMS, 0.05) for _ in range(rng.choice([0, 1, 1, 3])))
            t += pick(HDRS, BADHDRS) + "".join("&" + pick(HDRS, BADHDRS, 0.05)[1:] for _ in range(rng.choice([0, 0, 1, 2])))
        elif x < 0.8:
            t = pick(TELS, BADTELS) + rng.choice(["", "", ";ext=1", ";EXT=9", ";isub=a%20b", ";phone-context=q"])
        else:
            t = pick(ABS, BADABS, 0.3)
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            k = rng.randint(0, len(t))
            c = rng.choice("@:;?=&%[]/ <>\"+-.0aZ#é\t\r\n,~\u007f")
            t = rng.choice([t[:k] + c + t[k:], t[:k] + t[k + 1:], t[:k] + c + t[k + 1:]])
        return t

    def change(self, rng):
        word = lambda ok, n: rng.choice(ok) if rng.random() < 0.7 else rng.choice(
            ["", " ", "a b", "a;b", "a?b", "a@b", "a=b", "a&b", "<x>", "a\r\nb", "a\"b", "é", "%41", "%", "a/b", "#", "x" * n, "x" * (n + 1), "[::1]", "::1"])
        f = rng.choice(["host", "user", "user", "port", "noport", "nohdrs", "param", "param", "param", "tparam", "tparam", "ctx"])
        if f == "host":
            return chg(f, word(["h.example", "::1", "2001:db8::2", "H.EXAMPLE", "a_b", "1:2:3"], 256))
        if f == "user":
            return chg(f, word(["bob", "a:b", "a b", "b%20c", "<q>"], 256))
        if f == "port":
            return chg(f, rng.choice(["0", "1", "5060", "65535"]))
        if f == "param":
            return chg(f, word(["lr", "transport", "Transport", "x"], 64), *([word(["tcp", "1", "", "a&b"], 256)] if rng.random() < 0.7 else []))
        if f == "tparam":
            return chg(f, word(["ext", "EXT", "isub", "phone-context", "Phone-Context"], 32), *([word(["1", "a.b", "+5", ""], 128)] if rng.random() < 0.8 else []))
        if f == "ctx":
            return chg(f, word(["example.org", "+44", "a.b-c"], 63))
        return chg(f)

    def start(self, rng):
        x = rng.random()
        if x < 0.8:
            return parse(self.text(rng))
        if x < 0.87:
            return {"op": "as", "k": rng.choice(["sip", "tel"]), "x": self.text(rng)}
        if x < 0.94:
            return {"op": "new", "x": rng.choice(HOSTS[:5] + V6 + BAD6 + BADHOSTS)}
        return {"op": "tel", "x": rng.choice(["+15551234", "+1-5.5", "555", "5-5", "*9#", "+", "", "abc", "+1 5", "5 5", "1" * 64, "1" * 65]), "glob": rng.random() < 0.5}

    def gen(self, rng, tier, prop):
        out = []
        for _ in range(20000 if tier == "thorough" else 4000):
            ev = []
            for _ in range(3):
                ev.append(self.start(rng))
                ev += [self.change(rng) for _ in range(rng.choice([0, 1, 3, 5]))]
            out.append({"cfg": [], "ev": ev})
        # bounds
        big = [
            "sip:%s@h" % ("u" * 256), "sip:%s@h" % ("u" * 257), "sip:" + "h" * 256, "sip:" + "h" * 257,
            "sip:h;%s=1" % ("n" * 64), "sip:h;%s=1" % ("n" * 65), "sip:h;n=%s" % ("v" * 256), "sip:h;n=%s" % ("v" * 257),
            "sip:h?%s=1" % ("n" * 64), "sip:h?%s=1" % ("n" * 65), "sip:h?n=%s" % ("v" * 512), "sip:h?n=%s" % ("v" * 513),
            "sip:h" + "".join(";p%d" % i for i in range(50)), "sip:h" + "".join(";p%d" % i for i in range(51)),
            "sip:h?" + "&".join("p%d=1" % i for i in range(50)), "sip:h?" + "&".join("p%d=1" % i for i in range(51)),
            "http:" + "x" * 2043, "http:" + "x" * 2044, "tel:" + "1" * 64 + ";phone-context=a", "tel:" + "1" * 65 + ";phone-context=a",
            "tel:1;phone-context=" + "a" * 63, "tel:1;phone-context=" + "a" * 64, "tel:1;phone-context=+" + "1" * 127, "tel:1;phone-context=+" + "1" * 128,
            "tel:+1" + "".join(";p%d" % i for i in range(20)), "tel:+1" + "".join(";p%d" % i for i in range(21)),
            "tel:+1;%s=1" % ("n" * 32), "tel:+1;%s=1" % ("n" * 33), "tel:+1;n=%s" % ("v" * 128), "tel:+1;n=%s" % ("v" * 129),
        ]
        for n in (2048, 2049):
            t = "sip:h" + "".join(";p%02d=%s" % (i, "v" * 200) for i in range(9))
            big.append(t + ";q=" + "v" * (n - len(t) - 3))
        for t in big:
            out.append({"cfg": [], "ev": [parse(t), chg("param", "zz", "1"), chg("param", "p1"), chg("tparam", "zz"), chg("tparam", "p1", "2"), chg("nohdrs")]})
        return out

    def must_see(self, prop, tier):
        return ["parse:ok", "parse:err", "as:ok", "as:err", "new:ok", "new:err", "tel:ok", "tel:err", "with:ok", "with:err", "with:none"]


SUITES = [Uri()]
