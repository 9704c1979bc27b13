from lib import tset
from .base import Suite

TAGS = ["audio", "video", "application", "data", "control", "text", "automata", "class", "duplex", "mobility",
        "description", "events", "priority", "methods", "schemes", "extensions", "isfocus", "actor", "language"]
LISTS = TAGS[11:16]
DISP = [["", "proxy", "redirect"], ["", "fork", "no-fork"], ["", "cancel", "no-cancel"],
        ["", "recurse", "no-recurse"], ["", "parallel", "sequential"], ["", "queue", "no-queue"]]


def V(k, b=False, x="", l=(), n=0):
    return {"k": k, "b": b, "x": x, "l": list(l), "n": n}


def B(b=True):
    return V("bool", b=b)


def T(x):
    return V("tok", x=x)


def L(*l):
    return V("list", l=l)


def Q(x):
    return V("str", x=x)


def N(n):
    return V("num", n=n)


def f(t, v):
    return {"t": t, "v": v}


def acc(fs, req=False, exp=False):
    return {"f": list(fs), "req": req, "exp": exp}


def con(q, has, fs, qa=1000):
    return {"q": q, "has": has, "f": list(fs), "qa": qa}


TOKENS = ["fixed", "mobile", "Fixed", "full", "half", "principal", "msg-taker", "INVITE", "invite", "bye", "BYE", "en", "a.b!%*_+`'~-", "nan", "inf", "Infinity", "x1", "-", "."]
BADTOK = ["", "a b", "a,b", "a;b", "a\"b", "a\r\nb", "é", "a/b", "x" * 65, "a=b", "(x)", "a\tb"]
STRS = ["", "hello world", "Hello World", "a,b", "5", "INVITE", "<x>", "it's; ok", "x" * 256, "a\\b"]
BADSTR = ["a\"b", "a\r\nb", "x" * 257, "\t", "\"", "a\nb"]
NUMS = [0, 1000, 5000, -2500, 250, 1, 999999, 1001, 100, 10]
RAW = [None, "", "5", "-2.5", "+.5", "5.", "1.250", "007", "fixed", " fixed ", "\"hello\"", "\"\"", "\" INVITE , BYE \"", "\"INVITE,,BYE\"", "INVITE,BYE", "INVITE , bye", "\"a b\"", "\"", "\"a",
       "a\"", "\"a\"b\"", "a b", ",", "\",\"", "nan", "-inf", "inf", "infinity", "NaN", "\"5\"", "1.2.3", "--1", "+", ".", "1_0", "\"a\"\"", "x" * 64, "x" * 65, "\"" + "x" * 256 + "\"",
       "\"" + "x" * 257 + "\"", ",".join("t%d" % i for i in range(20)), ",".join("t%d" % i for i in range(21)), "\"a\tb\"", "true", "TRUE", "\"" + "y" * 65 + "\"", "'x'"]


class Caps(Suite):
    name = "caps"
    module = "Caps"
    props = ("C01", "C02")

    def mc(self, tier, prop):
        Th = tier == "thorough"
        base = dict(module="M_Caps", view="View", emit=True, inv=["TypeOK", "ReadsBack", "Sane"], prop=[])
        off = {"Acts": tset([]), "Depth": 1, "Contacts": tset([]), "Accepts": tset([]), "Rejects": tset([]), "MaxC": 0, "MaxH": 0}
        vals = [B(), B(False), T("fixed"), L("INVITE", "bye"), L(), Q("a b"), N(-2500)]
        reads = [{"op": "read", "ps": [{"n": t, "v": [] if r is None else [r]}]} for t in ("class", "methods") for r in RAW]
        acts = [{"op": "add", **f(t, v)} for t in ("audio", "methods") for v in vals] \
            + [{"op": o} for o in ("write", "reread", "clear")] \
            + [{"op": "match", "f": [f("audio", v)]} for v in vals] + [{"op": "match", "f": [f("methods", L("Bye")), f("audio", B())]}, {"op": "match", "f": []}] \
            + [{"op": "accept", "has": h, **acc([f("audio", B()), f("methods", L("BYE"))], r, e)} for h in (True, False) for r in (True, False) for e in (True, False)] \
            + [{"op": "reject", "has": h, "f": fs} for h in (True, False) for fs in ([], [f("audio", B())], [f("audio", B(False)), f("methods", L())])]
        disp = [{"op": "disp", "x": x} for x in ["fork", "FORK, no-Fork", "proxy,redirect,proxy", "x", "", ",", "no-fork,x,sequential", "queue\r\nX: y", "fork\t", " no-queue ", "fork;parallel",
                "no-recurse,no-cancel,queue", "parallel,,cancel", "pro xy", "redirect,recurse", "no-no-fork"]]
        disp += [{"op": "dispw", "d": [a, b, c, d, e, g]} for a in DISP[0] for b in DISP[1] for c in DISP[2] for d in DISP[3] for e in DISP[4] for g in DISP[5]]
        names = [{"op": "name", "x": x} for t in TAGS for x in (t, t.upper(), "sip." + t, t + "s")] + [{"op": "name", "x": ""}]
        AV, M = f("audio", B()), f("mobility", T("fixed"))
        contacts = [con(q, h, fs) for q in (1000, 500) for h in (True, False) for fs in ([], [AV], [AV, f("mobility", T("FIXED"))], [f("audio", B(False)), M])]
        accs = [acc(fs, r, e) for fs in ([], [AV], [AV, M], [M, f("video", B()), AV]) for r in (False, True) for e in (False, True)]
        rejs = [acc(fs) for fs in ([AV], [AV, M], [])]
        return [
            dict(base, consts=dict(off, Acts=tset(reads + [{"op": "write"}, {"op": "reread"}]), Depth=3)),
            dict(base, consts=dict(off, Acts=tset(acts), Depth=4 if Th else 3)),
            dict(base, consts=dict(off, Acts=tset(disp + names), Depth=1)),
            dict(base, consts=dict(off, Contacts=tset(contacts), Accepts=tset(accs[: 16 if Th else 12]), Rejects=tset(rejs), MaxC=1, MaxH=2)),
            dict(base, consts=dict(off, Contacts=tset(contacts if Th else contacts[::2]), Accepts=tset(accs[4:16:3]), Rejects=tset(rejs[:1]), MaxC=3, MaxH=1)),
        ]

    # ------------------------------------------------------------ generation
    def val(self, rng, t, bad=0.1):
        x = rng.random()
        tok = lambda: rng.choice(BADTOK) if rng.random() < bad else rng.choice(TOKENS)
        if t in LISTS and x < 0.7 or x < 0.15:
            return L(*[tok() for _ in range(rng.choice([0, 1, 1, 2, 3, 3, 20 if rng.random() < 0.1 else 2, 21 if rng.random() < bad else 1]))])
        if x < 0.45:
            return B(rng.random() < 0.7)
        if x < 0.65:
            return T(tok())
        if x < 0.8:
            return Q(rng.choice(BADSTR) if rng.random() < bad else rng.choice(STRS))
        return N(rng.choice(NUMS + [rng.randint(-99999, 99999)]))

    def feats(self, rng, bad=0.0, near=(), k=None):
        out = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4]) if k is None else k):
            if near and rng.random() < 0.6:
                g = rng.choice(near)
                v = dict(g["v"])
                if rng.random() < 0.3:
                    v = self.val(rng, g["t"], bad)
                elif v["k"] == "tok":
                    v["x"] = v["x"].swapcase()
                elif v["k"] == "list":
                    v["l"] = [y.swapcase() for y in v["l"] if rng.random() < 0.8]
                elif v["k"] == "str" and rng.random() < 0.3:
                    v["x"] = v["x"].swapcase()
                elif v["k"] == "num" and rng.random() < 0.3:
                    v["n"] += rng.choice([1, -1])
                out.append(f(g["t"], v))
            else:
                t = rng.choice(TAGS)
                out.append(f(t, self.val(rng, t, bad)))
        return out

    def score(self, rng):
        pool = self.feats(rng, k=5)
        pick = lambda: [dict(rng.choice(pool)) for _ in range(rng.choice([0, 1, 2, 3]))]
        cs = [con(rng.choice([0, 300, 500, 500, 700, 1000, 1000, 1500, -200]), rng.random() < 0.75, self.feats(rng, near=pool), rng.choice([1000, 1000, 0, 500, 250, 2000, -5]))
              for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 12]))]
        ac = [acc(self.feats(rng, near=pool), rng.random() < 0.25, rng.random() < 0.25) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
        rj = [acc(pick()) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        return {"op": "score", "cs": cs, "ac": ac, "rj": rj}

    def gen(self, rng, tier, prop):
        out = []
        for _ in range(12000 if tier == "thorough" else 2500):
            ev = []
            own = []
            for _ in range(rng.choice([3, 6, 10])):
                x = rng.random()
                if prop == "C01" and x < 0.35:
                    ev.append(self.score(rng))
                elif x < 0.55:
                    t = rng.choice(TAGS)
                    v = self.val(rng, t)
                    own.append(f(t, v))
                    ev.append({"op": "add", **f(t, v)})
                elif x < 0.6:
                    ev.append({"op": rng.choice(["write", "write", "clear"])})
                elif x < 0.68:
                    ev.append({"op": "reread"})
                elif x < 0.76:
                    ps = {}
                    for _ in range(rng.choice([0, 1, 1, 2, 4])):
                        n = rng.choice(TAGS + ["x", "q", "expires", "+sip.instance", "sip.audio"])
                        n = rng.choice([n, n, n.upper(), n.capitalize()])
                        r = rng.choice(RAW)
                        ps[n] = [] if r is None else [r]
                    ev.append({"op": "read", "ps": [{"n": n, "v": ps[n]} for n in sorted(ps)]})
                elif x < 0.8:
                    ev.append({"op": "has", "t": rng.choice([o["t"] for o in own] + TAGS[:3])})
                elif x < 0.86:
                    ev.append({"op": "match", "f": [g for g in self.feats(rng, near=own) if self.fine(g["v"], False)]})
                elif x < 0.92:
                    ev.append({"op": "accept", "has": rng.random() < 0.7, **acc(self.feats(rng, 0.1, own), rng.random() < 0.4, rng.random() < 0.4)})
                elif x < 0.96:
                    ev.append({"op": "reject", "has": rng.random() < 0.7, "f": self.feats(rng, 0.1, own)})
                else:
                    w = [rng.choice([d for g in DISP for d in g] + ["x", "no-", "fork=1"]) for _ in range(rng.choice([1, 2, 4, 8]))]
                    w = [rng.choice([y, y.upper(), " " + y, y + "  "]) for y in w]
                    ev.append({"op": "disp", "x": ",".join(w) + ("\r\n" if rng.random() < 0.05 else "")})
            out.append({"cfg": [], "ev": [self.sane(e) for e in ev]})
        ev = [{"op": "sizes", "cs": c, "ac": a, "rj": r, "caps": k} for c, k in ((0, 0), (1, 1), (1024, 1024), (1025, 1025), (3, 2), (2, 3), (0, 1)) for a in (0, 32, 33) for r in (0, 32, 33)]
        out.append({"cfg": [], "ev": ev})
        return out

    def fine(self, v, quotes):
        ok = lambda x: 0 < len(x) <= 64 and all(c.isascii() and (c.isalnum() or c in "-.!%*_+`'~") for c in x)
        if v["k"] == "tok":
            return ok(v["x"])
        if v["k"] == "list":
            return len(v["l"]) <= 20 and all(map(ok, v["l"]))
        if v["k"] == "str":
            return len(v["x"]) <= 256 and not any(c in v["x"] for c in "\t\r\n") and (quotes or '"' not in v["x"])
        return True

    def sane(self, e):
        """Sets that are given whole (not what is under test there) hold legal values."""
        if e["op"] == "score":
            for c in e["cs"]:
                c["f"] = [g for g in c["f"] if self.fine(g["v"], False)]
            for c in e["ac"] + e["rj"]:
                c["f"] = [g for g in c["f"] if self.fine(g["v"], True)]
        return e

    def owners(self, m):
        return ("C01",) if m["trace"]["ev"][m["i"]]["op"] in ("accept", "reject", "score", "sizes", "disp", "dispw") else ("C02",)

    def must_see(self, prop, tier):
        if prop == "C01":
            return ["score:chosen", "sizes:count", "sizes:err", "accept:points", "accept:err", "reject:yes", "reject:no", "reject:err", "disp:disp", "disp:err", "dispw:disp"]
        return ["add:ok", "add:err", "read:set", "read:err", "reread:set", "write:params", "match:yes", "match:no", "has:has", "name:tag", "name:err"]


SUITES = [Caps()]
