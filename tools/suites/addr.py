from lib import tset
from .base import Suite

SIP = ["sip:alice@home.example", "sip:alice@home.example;user=phone", "sips:bob@b.example:5061", "sip:10.0.0.1;lr", "sip:10.0.0.1", "sip:a,b@h.example", "sip:[2001:db8::1]:5060;transport=tcp", "sip:p.example;lr", "sip:p.example", "sip:boss@h"]
OTHER = ["tel:+15551234567", "https://x.example/a", "urn:service:sos", "cid:target123@atlanta.example"]
HDRS = ["sip:carol@c.example?Subject=x", "sip:d@h;lr?a=b&c=d"]
PLAIN = [u for u in SIP + OTHER if ";" not in u and "," not in u]
BAD = ["alice", "sip:", "", "tel:", "sip:alice@", "sip: alice", "not-a-valid-uri"]
NAMES = ["", "Alice", "Alice Smith", "Smith, Alice", "a;b", "<sip:boss@h>", "x\" <sip:boss@h>, \"y", "back\\slash", "\\", "q\"q", "end\\", "a\\\"b", "  ", "x" * 256, "\"\"", "a=b", "\"", "tag=1"]
BADN = ["a\tb", "a\r\nX: y", "x" * 257]
PN = ["tag", "lr", "LR", "q", "expires", "Tag", "a.b!%*_+`'~-", "index", "rc", "purpose", "x"]
TV = ["1", "abc-1.2", "1.1", "487", "0.5"]
PV = TV + ["", "a;b", "a,b <c>", "\"", "\\", "a\\\"b", "x y", "sip:a@b;lr", "a=b", "[::1]:5060", " z ", "y" * 256, "icon"]
BADPV = ["y" * 257, "a\r\nb", "a\tb"]
BADPN = ["", "a b", "x" * 65, "a;b", "a=b", "a,b", "a\"b", "a\r\nb"]
SINGLES = ["from", "to", "contact", "callinfo", "route", "routep"]
LISTS = ["routes", "calls", "path", "sr", "hist", "geo"]
MAKE = ["route", "path", "sr", "hist", "geo", "refby"]
TOK = ["hist", "geo"]


def quote(x):
    return "\"" + x.replace("\\", "\\\\").replace("\"", "\\\"") + "\""


class Addr(Suite):
    name = "addr"
    module = "AddrHdr"
    props = ("H01",)

    def mc(self, tier, prop):
        T = tier == "thorough"
        base = dict(module="M_AddrHdr", view="View", emit=True, inv=["TypeOK", "RoundTrip", "Clean"])
        c = lambda acts, d: dict(base, consts={"Acts": tset(acts), "Depth": d})
        AG = {"op": "again"}
        it = lambda d, u, *ps: {"d": d, "u": u, "ps": [{"n": n, "v": v} for n, v in ps]}
        mk = lambda k, *v: {"op": "make", "k": k, "v": list(v), "via": "new"}
        rd = lambda k, *x: {"op": "read", "k": k, "x": list(x)}
        names = [mk(k, it(n, SIP[0])) for k in ("route", "path", "refby") for n in NAMES[1:12] + BADN[:1] + BADN[2:]]
        vals = [mk(k, it("", SIP[7], ("x", [v]))) for k in ("route", "sr", "refby", "hist", "geo") for v in PV + BADPV[1:]]
        pn = [mk(k, it("", SIP[7], (n, ["1"]))) for k in ("route", "refby", "hist", "geo") for n in BADPN + ["X", "lr"]]
        two = [mk(k, it("A", SIP[5], ("b", ["x,y"]), ("a", [])), it("", SIP[3], ("lr", []))) for k in ("path", "sr", "hist")] + [mk(k) for k in ("path", "sr", "hist", "geo")]
        na = ["<sip:p.example;lr>", "sip:p.example;lr", "\"A \\\"<x>\\\" \" <sip:alice@home.example>;Tag=\"a;b\\\\\";x", "A B <tel:+15551234567>;tag=", "<sip:p.example", "sip:p.example>", "", " ", "<>", "<alice>;tag=1", "\"A <sip:p.example>",
              "<sip:carol@c.example?Subject=x>;lr", "<sip:p.example>;tag=1;TAG=2", "<sip:p.example>;=1", "<sip:p.example> ; a b=1", "<sip:p.example>;;x ; y", "<sip:p.example>;x=a, <sip:10.0.0.1>"]
        ls = ["<sip:p.example;lr>, <sip:10.0.0.1;lr>;x=\"a,b\"", "\"A, B\" <sip:a,b@h.example>;index=1;rc=487,<sip:p.example>;index=1.1", ",", "<sip:p.example>, alice", "<sip:p.example>;x=\"open", "sip:p.example;lr , sip:10.0.0.1", "<sip:p.example>;index=\"a b\""]
        rf = ["<sip:p.example>;cid=\"a@b\"", "\"B \\\\ \\\" <\" <sip:p.example>;CID=\"x;y\";z=\"1;2\"", "<sip:p.example>;x", "<sip:p.example>;cid=", "<sip:p.example>;cid=a;cid=b", "<<sip:p.example>>", "sip:p.example;x=1", "<sip:p.example>;a;b=1", "<https://x.example/a>;x=\"", "<sip:p.example>;x=\"\""]
        return [c([AG] + names, 3), c([AG] + vals, 3), c([AG] + pn + two, 3),
                c([AG] + [rd(k, x) for k in SINGLES for x in na], 3),
                c([AG] + [rd(k, *x) for k in LISTS for x in [[y] for y in ls + na[:5]] + [[ls[0], ls[1]], [ls[0], ls[3]]]], 3),
                c([AG] + [rd("refby", x) for x in rf], 3)]

    # ------------------------------------------------------------ generation
    def ps(self, rng, k, bad=0.0):
        n = rng.choice([0, 0, 1, 1, 2, 3])
        val = TV if k in TOK and rng.random() > bad else PV
        pick = [n for n in PN if n.lower() != "lr"] if k == "refby" else PN
        pick = pick + (["cid"] if k == "refby" else [])
        q = [{"n": rng.choice(BADPN) if rng.random() < bad / 2 else rng.choice(pick), "v": [rng.choice(BADPV) if rng.random() < bad / 2 else rng.choice(val)] if k == "refby" or rng.random() < 0.7 else []} for _ in range(n)]
        return q if rng.random() < bad else [p for i, p in enumerate(q) if p["n"].lower() not in [x["n"].lower() for x in q[:i]]]

    def par(self, rng, p, k):
        if not p["v"]:
            return p["n"]
        v = p["v"][0]
        plain = v != "" and all(c.isalnum() or c in "-.!%*_+`'~[]:" for c in v)
        w = v if plain and rng.random() < 0.7 or v == "" and rng.random() < 0.5 else quote(v)
        return p["n"] + rng.choice(["=", "=", "=", " = "]) + w

    def noise(self, rng, x, p):
        if x and rng.random() < p:
            i = rng.randrange(len(x))
            x = x[:i] + rng.choice(["", "\"", "\\", ">", ";", " ", ","]) + x[i + rng.choice([0, 1]):]
        return x

    def addr(self, rng, k, bad):
        name = "" if rng.random() < 0.4 else rng.choice(BADN[2:]) if rng.random() < bad / 3 else rng.choice(NAMES)
        u = rng.choice(BAD) if rng.random() < bad / 2 else rng.choice(SIP + SIP + OTHER + HDRS)
        q = quote(name)
        if name.isascii() and all(c.isalnum() or c == " " for c in name) and rng.random() < 0.5:
            q = name
        if not name and rng.random() < 0.9:
            q = ""
        ps = "".join(rng.choice([";", ";", " ; "]) + self.par(rng, p, k) for p in self.ps(rng, k, bad))
        if rng.random() < 0.15:
            return rng.choice(PLAIN) + ps
        return self.noise(rng, q, bad / 2) + rng.choice([" ", "", "  "]) + "<" + u + ">" + self.noise(rng, ps, bad / 2)

    def gen(self, rng, tier, prop):
        out = []
        for _ in range(16000 if tier == "thorough" else 2600):
            ev = []
            for _ in range(rng.choice([1, 2, 4])):
                bad = rng.choice([0, 0, 0, 0.3])
                if rng.random() < 0.5:
                    k = rng.choice(MAKE)
                    n = 1 if k in ("route", "refby") else rng.choice([0, 1, 1, 2, 3])
                    v = []
                    bare = rng.random() < 0.2
                    for _ in range(n):
                        u = rng.choice(SIP if k == "refby" else SIP + OTHER)
                        v.append({"d": "" if k in TOK or bare else rng.choice(BADN) if rng.random() < bad / 2 else rng.choice(NAMES), "u": u, "ps": [] if bare else self.ps(rng, k, bad)})
                    if k == "route" and rng.random() < 0.1:
                        v[0] = {"d": "", "u": rng.choice(SIP), "ps": [{"n": "lr", "v": []}]}
                    x = rng.random()
                    if x < 0.02 and k not in ("route", "refby"):
                        m = 10 if k == "geo" else 50
                        v = [{"d": "", "u": "sip:p.example", "ps": []} for _ in range(m + rng.choice([0, 1]))]
                    elif x < 0.04:
                        m = 64 if k in ("route", "path", "sr") else 20
                        v = [{"d": "", "u": "sip:p.example", "ps": [{"n": "p%d" % i, "v": ["1"]} for i in range(m + rng.choice([0, 1]))]}]
                    elif x < 0.06:
                        v = [{"d": "", "u": "sip:p.example", "ps": [{"n": "n" * rng.choice([64, 65]), "v": ["1"]}]}]
                    ev.append({"op": "make", "k": k, "v": v, "via": rng.choice(["new", "add"])})
                else:
                    k = rng.choice(SINGLES + LISTS + ["refby"] * 2)
                    if k in LISTS:
                        x = [rng.choice([", ", ",", " , ", ",,"]).join(self.addr(rng, k, bad) for _ in range(rng.choice([0, 1, 1, 2, 3]))) for _ in range(rng.choice([1, 1, 2]))]
                    else:
                        x = [self.addr(rng, k, bad)]
                    y = rng.random()
                    if y < 0.02:
                        m = 20 if k in ("refby", "hist", "geo") else 64
                        over = 0 if k == "geo" else rng.choice([0, 1])
                        x = ["<sip:p.example>" + "".join(";p%d=%d" % (i, i) for i in range(m + over))]
                    elif y < 0.04 and k in LISTS:
                        m = 10 if k == "geo" else 50
                        c = rng.choice([0, 1, 2])
                        x = [",".join(["<sip:p.example>"] * (m // 2)), ",".join(["sip:p.example"] * (m // 2 + (c == 1)))] if c < 2 else [",".join(["<sip:p.example>"] * (m + 1))]
                    elif y < 0.05 and k in ("route", "refby"):
                        x = ["<sip:p.example>" + (" " if k == "route" else "") + ";x=" + " " * rng.choice([2048 - 15 - 3 - (k == "route") - 1, 2048 - 15 - 3 - (k == "route")]) + "y"]
                    x = [y.replace("\r", "").replace("\n", "").replace("\t", " ") for y in x]
                    ev.append({"op": "read", "k": k, "x": x})
                if rng.random() < 0.7:
                    ev.append({"op": "again"})
            out.append({"cfg": [], "ev": ev})
        return out

    def must_see(self, prop, tier):
        return ["read:val", "read:err", "make:val", "make:err", "again:val"]


SUITES = [Addr()]
