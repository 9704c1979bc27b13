from lib import tset
from .base import Suite

MECHS = ["tls", "TLS", "Digest", "ipsec-ike", "IPSEC-MAN", "x-sec", "X-Sec", "a.b!%*_+`'~"]
EDGE = ["m" * 64, "m" * 65, "", "a b", "a;b", "a,b", "a=b", "a\"b", "tls ", " tls", "a/b", "tls:1", "t(ls)", "a\r\nb"]
NAMES = ["d-alg", "D-ALG", "d-qop", "q", "Q", "x", "X", "a.b!%*_+`'~-"]
BADNAMES = ["n" * 64, "n" * 65, "", "a b", "a;b", "a=b", "a,b", "\"", "a\"b", " x", "x ", "<x>", "a\r\nb"]
VALS = ["MD5", "SHA-256", "auth", "\"a,b;c\"", "\"a\\\"b;c\"", "a=b", "\"\"", "[::1]:5060", "a b", "\"x\\\\\"", "0.5", "z" * 256]
BADVALS = ["", "a;b", "a,b", "\"open", "\"a\\\"", " a", "a ", "\"a\";b", "\"a\",\"b\"", "a\"b;c\"d", "z" * 257, "a\tb", "a\r\nb", "\"a\"\"", "a\\;b", ";", ",", "\"", "\"a;b\"c", "\\\"a;\""]
QS = ["0", "1", "0.5", "0.50", "0.001", "1.000", "0.25", "0.9", "1.", "0.3", "0.2", "0.6"]
BADQS = ["2", "1.001", "-0.5", "abc", "", "\"0.5\"", "0.5.5", "1 0", "0x1", "10", "0,5", "q"]
NUMS = [0, 1, 5, 10, 100, 200, 250, 300, 400, 500, 600, 900, 999, 1000]
BADNUMS = [-1, -500, 1001, 2000, 2000000, 3000000]
SIDES = ["client", "server", "verify"]


def E(x):
    return {"op": "entry", "via": "parse", "x": x, "vs": []}


def F(via, *vs):
    return {"op": "entry", "via": via, "x": "", "vs": list(vs)}


def rd(side, x):
    return {"op": "read", "side": side, "x": x}


class SecAgree(Suite):
    name = "secagree"
    module = "SecAgree"
    props = ("C03",)

    def mc(self, tier, prop):
        base = dict(module="M_SecAgree", view="View", emit=True, inv=["TypeOK", "RoundTrip", "Mutual", "Sorted"])
        c = lambda acts, depth: dict(base, consts={"Acts": tset(acts), "Depth": depth})
        show = [{"op": "show", "side": d} for d in SIDES]
        see = [{"op": "see"}]
        get = [{"op": "get", "n": n} for n in ("q", "Q", "x")]
        st = lambda n, *v: {"op": "set", "n": n, "v": list(v)}
        pr = lambda n: {"op": "pref", "q": n}
        a = [E(m) for m in MECHS + EDGE] + [F("tls"), F("digest", "MD5"), F("digest", "MD5", "auth"), F("digest", "a;b"), F("digest", "a", "\"x"), F("ipsec", "des-ede3-cbc", "esp", "trans"), F("ipsec", "a", "b", "c,d")] + see + [{"op": "put", "side": "verify", "k": 1}, show[2]]
        b = [E("tls")] + [st("x", v) for v in VALS + BADVALS] + [st(n, "1") for n in NAMES + BADNAMES] + [st("x"), st("q")] + see
        b2 = [E("tls"), st("x", "1"), st("X", "2"), st("x"), st("q", "0.5"), st("Q", "0.25"), st("q", "NaN"), st("Q"), pr(900), pr(1001)] + get + see
        b3 = [E("digest")] + [pr(n) for n in NUMS + BADNUMS] + see + [{"op": "put", "side": "client", "k": 1}, show[0]]
        texts = ["tls", "tls;q=0.5, digest;d-alg=SHA-256;q=0.3", " TLS ; Q = 1 ;; x ; d-qop = \"a,b;c\" ,, X-Sec;q=7", "digest;q=0.2;Q=0.4", "tls;q=0.4;q=9", "tls;x=\"open, digest", "", " , ", ",".join(["a"] * 10), ",".join(["a"] * 11), "tls;a=b;\"c\"=d", "tls;=x", ";q=1", "t ls",
                 "tls" + "".join(";p%d=1" % i for i in range(20)), "tls" + "".join(";p%d=1" % i for i in range(21)), "tls" + "".join(";p%d=1" % i for i in range(20)) + ";P7=2", "a=b", "tls;x=", "tls;q", "\"tls\"", "tls;x=a\"b,c\"d", "tls;" + "n" * 65, "tls;x=" + "z" * 257]
        r = [rd(d, x) for d in SIDES[:1] for x in texts] + [rd(d, x) for d in SIDES[1:] for x in texts[::5]] + show + [{"op": "again", "side": d} for d in SIDES]
        sv = ["tls;q=0.2,digest;q=0.6", "digest;q=0.3,tls;q=0.4,x-sec", "digest,ipsec-ike;q=0,tls", "X-SEC;q=0.002,tls", "tls;q=0.5,digest;q=0.5,tls;q=0.9"]
        cl = ["tls;q=0.6,digest;q=0.2", "digest;q=0.4, TLS;q=0.3", "x-Sec", "ipsec-man", "tls;q=1,digest;q=0.001,ipsec-ike", "digest;q=0.1,digest;q=0.9,tls;q=0.5", "ipsec-ike;q=1,tls;q=0,x-sec;q=0"]
        n = [rd("server", x) for x in sv] + [rd("client", x) for x in cl] + [rd("verify", x) for x in ("tls", "Digest;q=0.1,x-SEC")] + [{"op": "best"}, {"op": "verify"}] + show[:2]
        p = [E("tls"), E("x-sec"), pr(300), pr(800), {"op": "put", "side": "client", "k": 1}, {"op": "put", "side": "server", "k": 1}, {"op": "put", "side": "server", "k": 9}, {"op": "put", "side": "verify", "k": 10}, {"op": "put", "side": "client", "k": 11}, {"op": "best"}, {"op": "verify"}] + show
        d = 1 if tier == "thorough" else 0
        return [c(a, 3), c(b, 3), c(b2, 4 + d), c(b3, 4), c(r, 2 + d), c(n, 3 + d), c(p, 4 + d)]

    # ------------------------------------------------------------ generation
    def par(self, rng, bad):
        n = rng.choice(BADNAMES if rng.random() < bad / 2 else NAMES)
        if n.strip().lower() == "q":
            v = [rng.choice(BADQS if rng.random() < 0.2 else QS)]
        else:
            v = [] if rng.random() < 0.2 else [rng.choice(BADVALS if rng.random() < bad / 2 else VALS)]
        return n, v

    def entry(self, rng, bad):
        x = rng.choice(EDGE if rng.random() < bad / 3 else MECHS)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            n, v = self.par(rng, bad)
            x += rng.choice([";", ";", "; ", " ;", ";;"]) + n + "".join(rng.choice(["=", "=", " = "]) + y for y in v)
        if rng.random() < 0.02:
            x += "".join(rng.choice([";p%d", ";P%d=1", ";p%d=\"a;b\""]) % i for i in rng.choice([range(19), range(20), range(21), list(range(17)) * 2]))
        return x

    def line(self, rng, bad):
        k = rng.choice([1, 1, 2, 2, 3, 4] + [10, 11] * (rng.random() < 0.1))
        x = rng.choice([",", ", ", " , ", ", ,"] if k < 8 else [",", ", "]).join((self.entry(rng, bad) if k < 8 else rng.choice(MECHS)) for _ in range(k))
        if x and rng.random() < bad / 2:
            i = rng.randrange(len(x))
            x = x[:i] + rng.choice(["", "\"", "\\", ";", " ", "=", ","]) + x[i + rng.choice([0, 1]):]
        return x

    def weighed(self, rng):
        ms = rng.sample(["tls", "digest", "ipsec-ike", "ipsec-man", "x-sec", "y"], rng.choice([1, 2, 3, 4, 5]))
        if rng.random() < 0.15:
            ms.append(rng.choice(ms))
        up = lambda m: m.upper() if rng.random() < 0.2 else m
        return ", ".join(up(m) + rng.choice(["", ";x=1"]) + (rng.choice([";q=%s", ";Q=%s"]) % rng.choice(QS + ["0.%03d" % rng.randrange(1000)]) if rng.random() < 0.8 else "") for m in ms)

    def script(self, rng):
        bad = rng.choice([0, 0, 0.1, 0.4])
        ev = []
        x = rng.random()
        if x < 0.3:
            for _ in range(rng.choice([1, 2, 3])):
                ev += [rd("server", self.weighed(rng)), rd("client", self.weighed(rng)), {"op": "best"}]
                if rng.random() < 0.4:
                    ev += [rd("verify", self.weighed(rng)), {"op": "verify"}]
                if rng.random() < 0.5:
                    ev.append({"op": "show", "side": rng.choice(SIDES)})
        elif x < 0.65:
            for _ in range(rng.choice([1, 2, 3])):
                d = rng.choice(SIDES)
                ev += [rd(d, self.line(rng, bad)), {"op": "show", "side": d}] + [{"op": "again", "side": d}, {"op": "show", "side": d}] * (rng.random() < 0.5)
        else:
            for _ in range(rng.choice([1, 2, 3])):
                ev.append(F("digest", *[rng.choice(VALS if rng.random() > bad else BADVALS) for _ in range(rng.choice([1, 2]))]) if rng.random() < 0.2 else F("ipsec", *[rng.choice(VALS if rng.random() > bad else BADVALS) for _ in range(3)]) if rng.random() < 0.1
                          else F("tls") if rng.random() < 0.1 else E(rng.choice(EDGE if rng.random() < bad else MECHS)))
                for _ in range(rng.choice([0, 1, 2, 4])):
                    y = rng.random()
                    if y < 0.3:
                        ev.append({"op": "pref", "q": rng.choice(BADNUMS if rng.random() < bad else NUMS + [rng.randrange(1001)])})
                    elif y < 0.4:
                        ev.append({"op": "get", "n": rng.choice(NAMES)})
                    else:
                        n, v = self.par(rng, bad)
                        ev.append({"op": "set", "n": n, "v": v})
                if rng.random() < 0.03:
                    ev += [{"op": "set", "n": "p%d" % i, "v": ["1"]} for i in range(rng.choice([18, 19, 20]))] + [{"op": "set", "n": n, "v": ["2"]} for n in ("P3", "new1", "new2", "p3")] + [{"op": "pref", "q": 700}]
                ev.append({"op": "see"})
                if rng.random() < 0.7:
                    ev.append({"op": "put", "side": rng.choice(SIDES), "k": rng.choice([1, 1, 1, 2] + [9, 10, 11] * (rng.random() < 0.1))})
            d = rng.choice(SIDES)
            ev += [{"op": "show", "side": d}, {"op": "again", "side": d}, {"op": "show", "side": d}] + [{"op": rng.choice(["best", "verify"])}]
        return {"cfg": [], "ev": ev}

    def gen(self, rng, tier, prop):
        return [self.script(rng) for _ in range(24000 if tier == "thorough" else 3000)]

    def must_see(self, prop, tier):
        return ["entry:ok", "entry:err", "set:ok", "set:err", "pref:ok", "pref:err", "get:got", "see:entry", "put:ok", "put:err", "read:ok", "read:err", "show:header", "again:ok", "again:err", "best:best", "verify:verify"]


SUITES = [SecAgree()]
