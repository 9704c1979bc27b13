from lib import tset
from .base import Suite

TRANSPORTS = ["UDP", "TCP", "tls", "WSS", "SCTP", "x.y-z!%*_+`'~"]
BADT = ["", "U P", "U/P", "t" * 32, "t" * 33, "U;P", "U\tP", "U\"", "U,P", "(U)"]
HOSTS = ["host", "host:5060", "a.b-c_d.example.com", "192.0.2.1:1", "[2001:db8::1]", "[::1]:65535", "[::ffff:192.0.2.1]:5061", "h:00005060"]
BADH = ["", ":5060", "h:", "h:0", "h:65536", "h:5060x", "h:-1", "h:99999999999", "2001:db8::1", "[::1", "::1]", "[]", "[]:5060", "[::g]", "[::1]x", "[::1]:", "[::1]:0", "[::1]5060", "h o", "h;x", "h,x", "h@x", "h\r\nx", "h:5060:5061", "\"h\"", "h[", "h+"]
LONGH = ["h" * 256, "h" * 257]
NAMES = ["branch", "Branch", "received", "rport", "RPort", "ttl", "maddr", "x", "X", "a.b!%*_+`'~-", "n" * 64]
BADN = ["", "a b", "a;b", "a=b", "a,b", "a\"", "\"a\"", " x", "x ", "n" * 65, "a\r\nb", "<x>", "[x]", "a/b"]
VALS = ["z9hG4bK776", "192.0.2.1", "2001:db8::1", "[::1]", "5060", "a=b", "", "\"a;b\"", "\"a,b=c;d\"", "\"a\\\"b;c\"", "\"\\\\\"", "a b", "a\"b;c\"d", "==", "/x@y<z>"]
BADV = ["a;b", "x;branch=evil", "a,b", "1, SIP/2.0/UDP evil", "\"open", "\"a\\\"", " a", "a ", "a\tb", "a\r\nb", ";", ",", "\"a\";b", "\"", "\"a\"\"", "\\;", "a\\\";b\""]

SCHEMES = ["Digest", "digest", "DIGEST", "Bearer", "X-a", "!#$%&'*+.^_`|~", "m" * 64]
BADS = ["", "m" * 65, "Di gest", "Di,gest", "Di=gest", "\"Digest\"", "Di/gest", "Di\r\ngest", "(x)", "a;b"]
CN = ["username", "realm", "nonce", "uri", "response", "opaque", "cnonce", "algorithm", "qop", "nc", "Realm", "USERNAME", "stale", "userhash", "x", "X", "a!#$%&'*+-.^_`|~", "c" * 64]
BADCN = ["", "a b", "a=b", "a,b", "a\"b", "c" * 65, "a\r\nb", "a/b", "a;b", " x", "x "]
CV = ["alice", "example.com", "a, b", "a=b", "sip:bob@example.com;x=y", "MD5", "auth", "00000001", "", " ", " a ", "a b", "x\ty", "nonce==", "<a>,<b>", "auth,auth-int", "!#$%&'*+.^_`|~", ","]
ODDV = ["a\"b", "\"", "\\", "a\\", "x\", realm=\"y", "\"q\"", "a\\\"b", "\\\\\""]
LONGV = ["v" * 256, "v" * 257]
BADCV = ["a\r\nb", "a\nb"]


def V(t, h):
    return {"op": "via", "t": t, "h": h}


def vr(x):
    return {"op": "vread", "x": x}


def cr(x):
    return {"op": "cread", "x": x}


def C(m, *ps):
    return {"op": "cred", "m": m, "ps": [{"n": n, "v": v} for n, v in ps]}


def va(op, n, *v):
    return {"op": op, "n": n, "v": list(v)}


def ca(op, n, v):
    return {"op": op, "n": n, "v": v}


VSEE, VAGAIN, CSEE, CAGAIN = {"op": "vsee"}, {"op": "vagain"}, {"op": "csee"}, {"op": "cagain"}
VIAS = ["SIP/2.0/UDP h", "sip/2.0/tcp h:5060;branch=z9hG4bK1;rport", " SIP/2.0/UDP\t h ; Branch = z ;; rport ", "SIP/2.0/WS [::1]:80;received=2001:db8::1;x=\"a;b,c\"", "SIP/2.0/UDP h;x=\"a\\\";y=1\";z", "SIP/2.0/UDP h;x=",
        "SIP/2.0/UDP h;x=\"a;y=1", "SIP/2.0/UDP h;branch=1;BRANCH=2", "SIP/2.0/UDP h;a;a=1", "SIP/2.0/UDP h;branch=a, SIP/2.0/UDP evil", "SIP/2.0/UDP a,SIP/2.0/UDP b", "SIP/2.0/UDP", "SIP/2.0/UDP ;x", "SIP/2.0 h", "SIP/2.0/UDP/x h", "SIP/2.1/UDP h", "HTTP/2.0/UDP h", "SIP/2.0/ h",
        "/2.0/UDP h", "SIP/2.0/UDP h x", "", " ", ";", "SIP/2.0/UDP h\r\n;x", "SIP/2.0/UDP h:0", "SIP/2.0/UDP h;=x", "SIP/2.0/UDP h;x y", "SIP/2.0/UDP h;x=a\tb", "SIP/2.0/UDP h;\"x\"=1", "SIP/2.0/UDP \"h;x\"",
        "SIP/2.0/UDP h" + "".join(";p%d=%d" % (i, i) for i in range(20)), "SIP/2.0/UDP h" + "".join(";p%d" % i for i in range(21)), "SIP/2.0/UDP h" + "".join(";p%d" % i for i in range(20)) + ";", "SIP/2.0/UDP h;" + "n" * 65, "SIP/2.0/UDP h;x=" + "v" * 257, "SIP/2.0/" + "t" * 33 + " h"]
CREDS = ["Digest username=\"alice\", realm=\"a, b\", nonce=\"n\", uri=\"sip:b@x\", response=\"r\", algorithm=MD5, qop=auth, nc=00000001, cnonce=\"c\"", "digest  USERNAME = \"a\" ,, Realm=b , ", "Bearer token=abc", "Digest", " Digest ", "Digest realm=\"say \\\"hi\\\"\"", "Digest realm=\"\\\\\"", "Digest realm=\"a\\\"b, c\", nonce=\"n\"",
         "Digest realm=\"a=b\", uri=sip:x@y;z=1", "Digest realm=\"\"", "Digest realm=\" a \"", "Digest realm=\"open", "Digest realm=\"a\\\"", "Digest realm=\"a\", Realm=\"b\"", "Digest realm=\"a\", username", "Digest =\"a\"", "Digest a b=c", "", " ", "Dig,est a=b", "Digest realm=\"a\r\nb\"", "Digest realm=\"a\tb\"", "Digest " + ", ".join("p%d=%d" % (i, i) for i in range(30)),
         "Digest " + ",".join("p%d=%d" % (i, i) for i in range(31)), "Digest " + "c" * 65 + "=1", "Digest x=\"" + "v" * 256 + "\"", "Digest x=" + "v" * 257, "m" * 65 + " a=b", "Digest realm=\"a\" nonce=\"b\", x=y"][:-1]


class ViaCred(Suite):
    name = "viacred"
    module = "ViaCred"
    props = ("H04",)

    def mc(self, tier, prop):
        base = dict(module="M_ViaCred", view="View", emit=True, inv=["TypeOK", "RoundTrip", "Exact"], prop=["Refused"])
        c = lambda acts, depth: dict(base, consts={"Acts": tset(acts), "Depth": depth})
        d = 1 if tier == "thorough" else 0
        u = V("UDP", "h:5060")
        g = [{"op": "vget", "n": n} for n in ("branch", "BRANCH", "x")]
        q = [{"op": "cget", "n": n} for n in ("realm", "REALM", "x")]
        a = [V(t, "h") for t in TRANSPORTS + BADT] + [V("UDP", h) for h in HOSTS + BADH + LONGH] + [VSEE, VAGAIN]
        b = [u] + [va("vset", "x", v) for v in VALS + BADV] + [va("vadd", n, "1") for n in NAMES + BADN] + [va("vset", n) for n in BADN[:4]] + [VSEE, VAGAIN]
        b2 = [u, va("vadd", "branch", "a"), va("vadd", "Branch", "b"), va("vset", "BRANCH", "c"), va("vset", "branch"), va("vadd", "x"), va("vset", "X", "a;b"), va("vset", "x", "\"a;b\""), VSEE, VAGAIN] + g
        short = lambda q: [x for x in q if len(x) < 130]
        big = [[vr(x) for x in VIAS if len(x) >= 130] + [VSEE, VAGAIN, va("vset", "p3", "2"), va("vadd", "q", "2")], [cr(x) for x in CREDS if len(x) >= 130] + [CSEE, CAGAIN, ca("cset", "P3", "2"), ca("cadd", "q", "2")]]
        r = [vr(x) for x in short(VIAS)] + [VSEE, VAGAIN, va("vset", "rport", "5080"), va("vset", "received", "192.0.2.9")] + g
        e = [C("Digest")] + [C(m) for m in SCHEMES + BADS] + [C("Digest", ("realm", "a"), ("Realm", "b")), C("Digest", ("realm", "a"), ("nonce", "b")), C("Digest", ("realm", "a"), ("x/y", "b"))] + [CSEE, CAGAIN]
        f = [[C("Digest")] + [ca("cset", "realm", v) for v in CV + ODDV + BADCV] + [CSEE], [C("Digest")] + [ca("cadd", "x", v) for v in CV + ODDV + BADCV] + [CAGAIN, CSEE], [C("Bearer")] + [ca("cadd", n, "1") for n in CN + BADCN] + [CSEE]]
        f2 = [C("Digest"), ca("cadd", "realm", "a"), ca("cadd", "Realm", "b"), ca("cset", "REALM", "c\"d"), ca("cset", "realm", "x\", y=\"z"), ca("cadd", "x", "1"), CSEE, CAGAIN] + q
        h = [cr(x) for x in short(CREDS)] + [CSEE, CAGAIN] + q
        lv = [u, C("Digest")] + [va("vset", "x", v) for v in LONGV] + [ca("cset", n, v) for n in ("x", "realm") for v in LONGV + ["a" * 254 + "\"", "a" * 255 + "\""]] + [VSEE, VAGAIN, CSEE, CAGAIN]
        return [c(lv, 3)] + [c(x, 3) for x in big] + [ c(a, 2 + d), c(b, 3), c(b2, 4 + d), c(r[::2] + r[-3:], 3), c(r[1::2] + r[-3:], 3), c(e, 2 + d)] + [c(x, 3) for x in f] + [c(f2, 4 + d), c(h[::2] + [CSEE, CAGAIN], 3), c(h[1::2] + [CSEE, CAGAIN], 3)]

    # ------------------------------------------------------------ generation
    def via(self, rng, bad):
        x = rng.choice(["SIP", "SIP", "sip", "Sip"]) + "/2.0/" + rng.choice(BADT if rng.random() < bad / 3 else TRANSPORTS) + rng.choice([" ", " ", "  ", "\t"]) + rng.choice(BADH if rng.random() < bad / 2 else HOSTS)
        for _ in range(rng.choice([0, 1, 2, 2, 3, 5])):
            n, v = self.par(rng, bad)
            x += rng.choice([";", ";", "; ", " ;", ";;"]) + n + "".join(rng.choice(["=", "=", " = "]) + y for y in v)
        if rng.random() < 0.03:
            x += "".join(rng.choice([";p%d", ";P%d=1", ";p%d=\"a;b\""]) % i for i in rng.choice([range(17), range(19), range(20), range(21)]))
        if rng.random() < bad / 2:
            i = rng.randrange(12, len(x) + 1)
            x = x[:i] + rng.choice(["", "\"", "\\", ";", "=", ","]) + x[i + rng.choice([0, 1]):]
        return x

    def par(self, rng, bad):
        return (rng.choice(BADN if rng.random() < bad / 2 else NAMES), [] if rng.random() < 0.25 else [rng.choice(BADV if rng.random() < bad / 2 else VALS)])

    def cpar(self, rng, bad):
        return rng.choice(BADCN if rng.random() < bad / 2 else CN), rng.choice(BADCV if rng.random() < bad / 4 else ODDV if rng.random() < 0.15 else CV)

    def cred(self, rng, bad):
        x = rng.choice(BADS if rng.random() < bad / 3 else SCHEMES) + " "
        esc = lambda v: v.replace("\\", "\\\\").replace("\"", "\\\"")
        plain = lambda v: v and not set(v) & set("\", \t<>\\")
        k = rng.choice([0, 1, 2, 3, 5] + [29, 30, 31] * (rng.random() < 0.1))
        ps = []
        for i in range(k):
            n, v = self.cpar(rng, bad) if k < 9 else ("p%d" % i, "1")
            ps.append(n + rng.choice(["=", "=", " = "]) + (v if plain(v) and rng.random() < 0.4 else "\"" + esc(v) + "\""))
        if ps and rng.random() < bad / 2:
            ps.append(rng.choice(["x", "\"open", "=\"a\"", "a b=c", "y=\"a\\\"", "\"q\"=1"]))
        return x + rng.choice([", ", ",", " , ", ",,"] if k < 9 else [", "]).join(ps)

    def script(self, rng):
        bad = rng.choice([0, 0, 0.1, 0.4])
        ev = []
        for _ in range(rng.choice([1, 2, 3])):
            x = rng.random()
            if x < 0.3:
                ev += [vr(self.via(rng, bad)), VSEE] + [VAGAIN, VSEE] * (rng.random() < 0.5)
                if rng.random() < 0.5:
                    ev += [va("vset", "rport", str(rng.randrange(65536))), va("vset", "received", "192.0.2.%d" % rng.randrange(256)), {"op": "vget", "n": "RPORT"}, VSEE]
            elif x < 0.5:
                ev.append(V(rng.choice(BADT if rng.random() < bad else TRANSPORTS), rng.choice(BADH if rng.random() < bad else HOSTS)))
                if rng.random() < 0.1:
                    ev += [va("vadd", "p%d" % i, "1") for i in range(rng.choice([18, 19, 20, 21]))] + [va("vset", "P3", "2"), va("vset", "q", "2")]
                for _ in range(rng.choice([1, 2, 4, 6])):
                    n, v = self.par(rng, bad)
                    ev.append(va(rng.choice(["vadd", "vset"]), n, *v))
                ev += [{"op": "vget", "n": rng.choice(NAMES)}, VSEE, VAGAIN, VSEE]
            elif x < 0.75:
                ev += [cr(self.cred(rng, bad)), CSEE] + [CAGAIN, CSEE] * (rng.random() < 0.5)
            else:
                ps = [self.cpar(rng, bad / 2) for _ in range(rng.choice([0, 1, 2, 3]))]
                if rng.random() < 0.1:
                    ps += [("p%d" % i, "1") for i in range(rng.choice([27, 28, 29, 30, 31]))]
                ev.append(C(rng.choice(BADS if rng.random() < bad / 2 else SCHEMES), *ps))
                for _ in range(rng.choice([1, 2, 4])):
                    n, v = self.cpar(rng, bad)
                    ev.append(ca(rng.choice(["cadd", "cset"]), n, v))
                ev += [{"op": "cget", "n": rng.choice(CN)}, CSEE, CAGAIN, CSEE]
        return {"cfg": [], "ev": ev}

    def gen(self, rng, tier, prop):
        return [self.script(rng) for _ in range(24000 if tier == "thorough" else 2400)]

    def must_see(self, prop, tier):
        return ["via:ok", "via:err", "vread:ok", "vread:err", "vadd:ok", "vadd:err", "vset:ok", "vset:err", "vget:got", "vsee:via", "vagain:ok",
                "cred:ok", "cred:err", "cread:ok", "cread:err", "cadd:ok", "cadd:err", "cset:ok", "cset:err", "cget:got", "csee:cred", "cagain:ok"]


SUITES = [ViaCred()]
