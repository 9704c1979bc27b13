from lib import tset
from .base import Suite

KNOWN = ["none", "header", "session", "user", "id", "critical"]
SIP = ["sip:alice@home.example", "sip:alice@home.example;user=phone", "sips:bob@b.example:5061", "sip:10.0.0.1", "sip:a,b@h.example", "sip:carol@c.example?Subject=x"]
TEL = ["tel:+15551234567", "tel:911;phone-context=+1"]
ABS = ["https://x.example/a", "urn:service:sos"]
BAD = ["alice", "sip:", "", "tel:", "tel:abc!", "sip:alice@", "sip: alice"]
NAMES = ["", "Alice", "Alice Smith", "Smith, Alice", "a;b", "<sip:boss@h>", "x\" <sip:boss@h.example>, \"y", "back\\slash", "\\", "q\"q", "end\\", "a\\\"b", "  ", "tel", "x" * 256, "\"\"", "a=b"]
BADN = ["a\tb", "a\r\nX: y", "x" * 257]
REMOVABLE = ["Subject", "Call-Info", "Organization", "User-Agent", "Reply-To", "In-Reply-To", "Server"]
OTHER = ["Via", "To", "Call-ID", "CSeq", "Max-Forwards", "Route", "Record-Route", "Supported", "Allow", "Content-Type", "P-Charging-Vector", "X-Subject", "Subjects", "Fromage", "P-Asserted-Identities"]
FROM = ["<sip:alice@home.example>;tag=1", "\"Alice \\\" ; x\" <sip:alice@home.example;user=phone>;tag=a1b2", "sip:alice@home.example;tag=9", "Alice <sip:alice@home.example>", "<tel:+15551234567>;tag=z;x=\"a;b\"", "sips:alice@home.example",
        "\"a <b>;c\" <sip:alice@home.example>;tag=q", "Smith, Alice <sip:alice@home.example>;tag=77", "<sip:alice@home.example> ; tag=5 ;y", "<sip:alice@home.example>" + ";x=" + "y" * 990, "<sip:alice@home.example>;x=" + "y" * 1200]
CONTACT = ["<sip:alice@10.0.0.7:5060>", "<sip:alice@10.0.0.7;transport=tcp>;expires=60;q=0.5", "*", "<sip:x@h>;q=1, <sip:alice@home.example>", "<sip:x@h>;q=1,\"Alice\" <sip:alice@home.example>;q=0.1", "<sip:x@h>, <sip:alice@home.example>;q=0.2",
           "\"A,;B\" <sip:alice@10.0.0.7;a=b,c>;methods=\"INVITE,BYE\";q=1 , sip:alice@z", "sip:alice@10.0.0.7", "sip:x@h;q=0.3, sip:alice@h;q=0.2, <sip:bob@h>", "<sip:alice@10.0.0.7>;" + "p=v;" * 260,
           "<sip:x@h>;+sip.instance=\"<urn:uuid:1>\", <sip:alice@home.example>;q=1"]
PAI = ["<sip:alice@home.example>", "\"Alice\" <sip:alice@home.example>, <tel:+15551234567>", "tel:+15551234567", "sip:alice@home.example;user=phone", "\"x\\\" <sip:boss@h.example>, \\\"y\" <sip:bob@h>", ",", " , sip:10.0.0.1, ,tel:+15551234567 ,"]
PN = ["x", "user", "cpc", "a.b!%*_+`'~-", "X", "Y", "User"]
PV = ["", "1", "\"a;b\"", "\"a,b <c>\"", "phone", "a b", "\"q\\\"q\"", "y" * 256, "a=b", "\"\"", "\\", " z "]
BADPV = ["a;b", "a,b", "<x>", "\"open", "y" * 257, "a\r\nb", "a\"b", "x>", "\"a\";\"b\"", "\"a\\\"", "a\t"]


class Privacy(Suite):
    name = "privacy"
    module = "Privacy"
    props = ("P01", "P02")

    def mc(self, tier, prop):
        T = tier == "thorough"
        base = dict(module="M_Privacy", view="View", emit=True, inv=["TypeOK"], prop=["NoLeak", "RoundTrip"])
        combos = [[v] for v in KNOWN] + [[a, b] for a in KNOWN[1:] for b in KNOWN[1:]]
        parse = [{"op": "privacy", "x": x} for x in ["", ";", "id", "ID ; Critical", " none ", "none;id", "id;none", "id,critical", "history", "id;history", "i d", "user;user", "id" + ";" * 254, "id" + ";" * 255,
                                                     ";".join(["id"] * 10), ";".join(["id"] * 11), "id;\tsession;\r\n", "headers", "none;none"]]
        build = [{"op": "build", "v": v} for v in combos + [[], ["none", "id"], ["none", "none"], ["id"] * 10, ["id"] * 11]]
        h = lambda n, v: {"op": "hdr", "n": n, "v": v}
        enf = [h("From", f) for f in FROM[:4]] + [h("contact", c) for c in CONTACT[:7]] + [h("Subject", "hi"), h("P-Asserted-Identity", PAI[0]), h("To", "<sip:b@h>"), h("server", "x")] \
            + [{"op": "enforce", "v": v} for v in combos[:6] + [["session", "critical"], ["critical", "header"], ["id", "session"]]]
        ask = [h("Privacy", x) for x in ("id", "none", "User", "history", "id;critical")] + [h("From", FROM[1]), h("Organization", "o"), {"op": "asks"}, {"op": "apply"}]
        own = [{"op": "own", "name": n, "uri": SIP[0], "ps": []} for n in NAMES[3:4] + NAMES[6:8] + NAMES[11:12] + BADN[:1]] \
            + [{"op": "own", "name": "", "uri": TEL[0], "ps": [{"n": "x", "v": v}]} for v in [[]] + [[y] for y in PV[2:3] + PV[6:7] + BADPV[:1] + BADPV[3:4]]] \
            + [{"op": "put", "w": "pai"}, {"op": "ids", "w": "pai"}]
        read = [h("P-Preferred-Identity", x) for x in PAI + ["\"A\" <sip:alice@home.example>;x;X", "<sip:alice@home.example", "sip:alice@home.example>", "<<sip:alice@home.example>>", "", "<>", "\"A <sip:alice@home.example>",
                                                            "<sip:alice@home.example>;x=a;y=\"b;c\"", "A \"B\" C <sip:10.0.0.1>", "<https://x.example/a>", "<sip:alice@home.example>;bad name=1"]] + [{"op": "ids", "w": "ppi"}]
        simple = [{"op": "simple", "k": k, "uri": SIP[0], "n": n, "pref": p} for k in ("sip", "tel", "both") for n in ("+15551234567", "tel:+15551234567", "abc!", "") for p in (False, True)] + [{"op": "put", "w": "pai"}, {"op": "ids", "w": "pai"}]
        c = lambda acts, d: dict(base, consts={"Acts": tset(acts), "Depth": d, "Secrets": tset(["alice", "Alice", "10.0.0.7"])})
        if prop == "P01":
            return [c(parse + build, 1), c(enf, 4 if T else 3), c(ask, 4 if T else 3)]
        return [c(own, 4 if T else 3), c(read[-1:] + read[:-1:2], 3), c(read[-1:] + read[1::2], 3), c(simple, 3)]

    # ------------------------------------------------------------ generation
    def ps(self, rng, bad=0.0):
        return [{"n": rng.choice(["", "a b", "x" * 65, "a;b", "é"]) if rng.random() < bad else rng.choice(PN), "v": [] if rng.random() < 0.3 else [rng.choice(BADPV) if rng.random() < bad else rng.choice(PV)]}
                for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3]))]

    def ident(self, rng, bad):
        name = rng.choice(NAMES)
        uri = rng.choice(BAD) if rng.random() < bad else rng.choice(SIP + TEL + ABS)
        q = "\"" + name.replace("\\", "\\\\").replace("\"", "\\\"") + "\""
        if name.isascii() and all(c.isalnum() or c == " " for c in name) and rng.random() < 0.5:
            q = name
        ps = "".join(rng.choice([";", ";", " ; "]) + p["n"] + ("=" + p["v"][0] if p["v"] else "") for p in self.ps(rng, bad))
        if rng.random() < 0.15:
            return uri + ps
        return (self.noise(rng, q) + rng.choice([" ", "", "  "]) if name else "") + "<" + uri + ">" + self.noise(rng, ps)

    def noise(self, rng, x):
        if x and rng.random() < 0.15:
            i = rng.randrange(len(x))
            x = x[:i] + rng.choice(["", "\"", "\\", "<", ">", ";", ",", " "]) + x[i + rng.choice([0, 1]):]
        return x

    def gen(self, rng, tier, prop):
        out = []
        for _ in range(12000 if tier == "thorough" else 2000 if prop == "P01" else 1500):
            ev = []
            if prop == "P01":
                for _ in range(rng.choice([2, 4, 8])):
                    x = rng.random()
                    if x < 0.25:
                        n, v = "From", rng.choice(FROM)
                    elif x < 0.5:
                        n, v = "Contact", rng.choice(CONTACT)
                    elif x < 0.65:
                        n, v = rng.choice(REMOVABLE), rng.choice(["x", "alice calling", ""])
                    elif x < 0.8:
                        n, v = rng.choice(["P-Asserted-Identity", "P-Preferred-Identity"]), rng.choice(PAI)
                    elif x < 0.9:
                        n, v = rng.choice(OTHER), rng.choice(["a", "b;c", "\"d\" <sip:e@f>;tag=1", "subject"])
                    else:
                        n, v = "Privacy", ("" if rng.random() < 0.05 else rng.choice([";", "; ", " ;"]).join(rng.choice([k, k, k.upper()]) for k in rng.choices(KNOWN + (["history"] if rng.random() < 0.1 else []), k=rng.choice([1, 1, 2, 3]))))
                    ev.append({"op": "hdr", "n": rng.choice([n, n, n.lower(), n.upper()]), "v": v})
                v = rng.choice([[rng.choice(KNOWN)], [rng.choice(KNOWN[1:]) for _ in range(rng.choice([2, 3]))], ["id"], ["user"], ["header"]])
                ev.append(rng.choice([{"op": "enforce", "v": v}, {"op": "apply"}]))
                if rng.random() < 0.5:
                    ev.append({"op": "asks"})
                if rng.random() < 0.2:
                    ev.append({"op": "enforce", "v": rng.choice([["user"], ["header", "session"]])})
                if rng.random() < 0.2:
                    ev.append({"op": "build", "v": [rng.choice(KNOWN) for _ in range(rng.choice([0, 1, 2, 3, 10, 11]))]})
                if rng.random() < 0.3:
                    ev.append({"op": "privacy", "x": rng.choice([";", "; ", " ;", ",", ";;"]).join(rng.choice([k, k.upper(), k.title(), " " + k]) for k in rng.choices(KNOWN[1:] * 3 + ["none", "history", "x", ""], k=rng.choice([1, 2, 3, 4])))})
            else:
                for _ in range(rng.choice([1, 2, 4])):
                    w = rng.choice(["pai", "ppi"])
                    if rng.random() < 0.5:
                        bad = rng.choice([0, 0, 0, 0.3])
                        for _ in range(rng.choice([0, 1, 1, 2, 3, 3, 10, 11] if bad == 0 else [1, 2])):
                            ev.append({"op": "own", "name": rng.choice(BADN) if rng.random() < bad else rng.choice(NAMES), "uri": rng.choice(SIP + TEL + ABS), "ps": self.ps(rng, bad)})
                            if len(ev[-1]["name"]) > 99 and rng.random() < 0.7:
                                ev[-1]["name"] = rng.choice(NAMES[:8])
                        if rng.random() < 0.05:
                            ev.append({"op": "own", "name": "", "uri": SIP[0], "ps": [{"n": "p%d" % i, "v": []} for i in range(rng.choice([20, 21]))]})
                        if rng.random() < 0.1:
                            ev.append({"op": "simple", "k": rng.choice(["sip", "tel", "both"]), "uri": rng.choice(SIP), "n": rng.choice(["+15551234567", "tel:911;phone-context=+1", "", "x y"]), "pref": rng.random() < 0.5})
                        ev.append({"op": "put", "w": w})
                    else:
                        for _ in range(rng.choice([1, 1, 2])):
                            bad = rng.choice([0, 0, 0, 0.2])
                            x = rng.choice([", ", ",", " , ", ",,"]).join(self.ident(rng, bad) for _ in range(rng.choice([1, 1, 2, 3, 5, 6])))
                            if "\r" not in x and "\n" not in x and x.isascii():
                                ev.append({"op": "hdr", "n": "P-Asserted-Identity" if w == "pai" else "P-Preferred-Identity", "v": x.replace("\t", " ")})
                    ev.append({"op": "ids", "w": w})
            out.append({"cfg": [], "ev": ev})
        return out

    def owners(self, m):
        return ("P02",) if m["trace"]["ev"][m["i"]]["op"] in ("ids", "own", "simple", "put") else ("P01",)

    def must_see(self, prop, tier):
        if prop == "P01":
            return ["privacy:priv", "privacy:err", "build:priv", "build:err", "asks:yes", "asks:no", "enforce:hdrs", "enforce:err", "apply:hdrs", "apply:no"]
        return ["ids:ids", "ids:none", "ids:err", "own:ok", "own:err", "put:text", "put:err", "simple:ok", "simple:err"]


SUITES = [Privacy()]
