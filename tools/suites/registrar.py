import unicodedata
from .base import Suite
from lib import tset

USERS = [{"u": "alice", "p": "wonder"}, {"u": "bob", "p": "builder"}, {"u": "+15551234567", "p": "1234"},
         {"u": "caf\u00e9", "p": "noir"}, {"u": "5551234", "p": "local"}, {"u": "example.com", "p": "host"}]
# canonical address -> (identity that owns it, written forms)
AORS = {
    "sip:alice@example.com": ("alice", [
        "<sip:alice@example.com>", "sip:alice@example.com", '"A. <sip:bob@example.com>" <sip:alice@EXAMPLE.com>;tag=7',
        "Al <sip:%61lice@example.com;transport=tcp;user=phone>", "<SIP:al%69c%65@Example.COM?subject=x>;x=y",
        "<sip:alice@exam%70le.com>"]),
    "sip:bob@example.com": ("bob", ["<sip:bob@example.com>", "<sip:b%6fb@example.com;lr>", "sip:bob@example.COM"]),
    "sip:Alice@example.com": ("alice", ["<sip:Alice@example.com>", "<sip:%41lice@example.com>"]),
    "sips:alice@example.com": ("alice", ["<sips:alice@example.com>", "<SIPS:alice@EXAMPLE.com;x>"]),
    "sip:alice@example.com:5060": ("alice", ["<sip:alice@example.com:5060>", "sip:alice@Example.com:5060"]),
    "sip:alice@other.example": ("alice", ["<sip:alice@other.example>"]),
    "sip:alice@[2001:db8::1]": ("alice", ["<sip:alice@[2001:db8::1]>", "<sip:alice@[2001:DB8::1]>"]),
    "sip:alice@[2001:db8::1]:5060": ("alice", ["<sip:alice@[2001:db8::1]:5060>"]),
    "sip:alice@[2001:db8::1:5060]": ("alice", ["<sip:alice@[2001:DB8::1:5060]>"]),
    "sip:example.com": ("", ["<sip:example.com>", "<sip:EXAMPLE.com;user=phone>"]),
    "sip:caf\u00e9@example.com": ("caf\u00e9", ["<sip:caf%C3%A9@example.com>", "<sip:caf%c3%a9@example.com>"]),
    "sip:cafe\u0301@example.com": ("caf\u00e9", ["<sip:cafe%CC%81@example.com>"]),
    "sip:+15551234567@example.com": ("+15551234567", ["<sip:+15551234567@example.com;user=phone>", "<sip:%2B15551234567@example.com>"]),
    "tel:+15551234567": ("+15551234567", ["<tel:+15551234567>", "<tel:+1-555-123-4567>", "<tel:+1(555)123.4567>;tag=x"]),
    "tel:+15551234567;ext=12;isub=7": ("+15551234567", ["<tel:+15551234567;ext=12;isub=7>", "<tel:+1-555-1234567;isub=7;EXT=12>"]),
    "tel:5551234;phone-context=example.com": ("5551234", ["<tel:5551234;phone-context=example.com>", "<tel:555-1234;Phone-Context=EXAMPLE.com>"]),
    "tel:5551234;phone-context=+1": ("5551234", ["<tel:555.1234;phone-context=+1>", "<tel:5551234;phone-context=+1->"]),
}
BADTO = ["<mailto:alice@example.com>", "<http://example.com/alice>", "<sip:>", "<sip:alice@example.com", "garbage", "<tel:>",
         "<urn:service:sos>"]
URIS = ["sip:a1@10.0.0.1", "sip:a2@10.0.0.2:5070;transport=tcp", "sips:a3@h.example", "sip:x,y@h.example", "sip:[2001:db8::1]:5061;ob",
        "sip:A1@10.0.0.1", "sip:a1@10.0.0.1:5060", "sip:q=0.1@h.example;expires=5", "sip:h.example?x=y"]
BADURI = ["mailto:a@h.example", "tel:+15550000", "sip:", "sip:a@", "http://h", " "]
PATHS = ["", "", "", "<sip:p1.example.com;lr>", "<sip:p1.example.com;lr>|<sip:p2.example.com;lr>"]
VIA = ["", "", "", "down", "up"]
INST = ["", "", "<urn:uuid:00000000-0000-1000-8000-AABBCCDDEEFF>"]


def cfg(auth="", mode="sync", mn=60, mx=86400, df=3600, rl=0, sr=False, adv=False, aors=None):
    return {"auth": auth, "users": USERS, "min": mn, "max": mx, "def": df, "rl": rl, "sr": sr, "adv": adv, "mode": mode,
            "aors": list(aors or AORS)}


def contact(u, exp=-1, q=-1, inst="", reg=-1, style=0, form="", expRaw=None, qRaw=None, regRaw=None, bad=False, instBad=False):
    def q_text(v):
        return "" if v == -1 else ("%.3f" % (v / 1000)).rstrip("0").rstrip(".") if v >= 0 else "abc"
    return {"u": u, "form": form, "exp": exp, "expRaw": expRaw if expRaw is not None else ("" if exp == -1 else "abc" if exp == -2 else str(exp)),
            "q": q, "qRaw": qRaw if qRaw is not None else q_text(q), "inst": inst, "instBad": instBad, "reg": reg,
            "regRaw": regRaw if regRaw is not None else ("" if reg == -1 else "x1" if reg == -2 else str(reg)),
            "style": style, "bad": bad}


def ident(u):
    return "".join(c.lower() if c.isascii() else c for c in unicodedata.normalize("NFC", u))


def cred(user="", pw="", mut="ok", victim="alice"):
    return {"user": user, "pass": pw, "mut": mut, "uc": ident(user), "victim": victim}


def reg(aor, contacts, call="c1", cseq=1, hexp=-1, to=None, wild=False, cr=None, hexpRaw=None, cseqBad="", miss="", ua="", key="",
        path="", pathBad=False, join=False, wire=False, toBad=False):
    own = ""
    if not toBad:
        own, forms = AORS.get(aor, (None, None))
        if own is None:
            own, forms = ident(aor.split(":")[1].split("@")[0]), ["<" + aor + ">"]
        to = to or forms[0]
    return {"op": "reg", "aor": "" if toBad else aor, "own": own, "to": to, "toBad": toBad, "call": call, "cseq": cseq, "cseqBad": cseqBad,
            "hexp": hexp, "hexpRaw": hexpRaw if hexpRaw is not None else ("" if hexp == -1 else "abc" if hexp == -2 else str(hexp)),
            "wild": wild, "contacts": contacts, "miss": miss, "ua": ua, "key": key, "path": path, "pathBad": pathBad, "join": join,
            "wire": wire, "cred": cr or cred()}


DUMP = {"op": "dump"}


def put(aor, u, exp=100, call="c1", cseq=1, q=1000, ua="", path="", inst="", reg=-1, flow="", via=""):
    return {"op": "put", "aor": aor, "u": u, "exp": exp, "call": call, "cseq": cseq, "q": q, "ua": ua, "path": path, "inst": inst, "reg": reg,
            "flow": flow, "via": via}


tick = lambda d: {"op": "tick", "dt": d}


class Registrar(Suite):
    name = "registrar"
    module = "Registrar"
    props = ("R01", "R02", "R03")

    def mc(self, tier, prop):
        T = tier == "thorough"
        A, B = "sip:alice@example.com", "sip:bob@example.com"
        u, v = URIS[0], URIS[1]
        base = dict(module="M_Registrar", inv=["TypeOK", "Exact"], prop=["Frame", "Rising", "OnlyOwner"])
        aors = tset([A, B])
        seqs = [reg(A, [contact(x, exp)], call, n) for x in (u, v) for exp in (0, 60) for call in ("c1", "c2") for n in (1, 2)
                if (x == u or call == "c1")] + \
            [reg(A, [contact(u, 60), contact(v, bad)], "c1", n) for n in (2, 3) for bad in (-2, 30, 90)] + \
            [reg(A, [], c, n, hexp=0, wild=True) for c in ("c1", "c2") for n in (1, 2)] + \
            [reg(B, [contact(u, 60)], "c1", 1), tick(59999), tick(1)]
        who = [cred("alice", "wonder"), cred("bob", "builder"), cred("alice", "wrong"), cred("bob", "builder", "dual"), cred("", "", "none")]
        auths = [reg(A, [contact(u, 60)], "c1", n, cr=c) for c in who for n in (1, 2)] + \
            [reg(A, [contact(u, 0)], "c2", 1, cr=c) for c in who] + [reg(A, [], "c2", 1, hexp=0, wild=True, cr=c) for c in who] + \
            [reg(B, [contact(u, 60)], "c1", 1, cr=c) for c in who[:2]]
        return [dict(base, emit=True, decorate=dumps, consts={"Acts": tset(seqs), "Depth": 4 if T else 3, "MaxNow": 130000, "Aors": aors,
                     "Cfgs": tset([cfg(aors=[A, B]), cfg(aors=[A, B], mode="async")] if T else [cfg(aors=[A, B], mode="async")])}),
                dict(base, emit=True, decorate=dumps, consts={"Acts": tset(auths), "Depth": 3, "MaxNow": 130000, "Aors": aors,
                     "Cfgs": tset([cfg("www", aors=[A, B]), cfg("proxy", mode="async", aors=[A, B])] if T else [cfg("proxy", aors=[A, B])])}),
                dict(base, emit=False, consts={"Acts": tset(seqs), "Depth": 6 if T else 4, "MaxNow": 130000, "Aors": aors,
                     "Cfgs": tset([cfg(aors=[A, B])])})]

    def gen(self, rng, tier, prop):
        T = tier == "thorough"
        out = [self.history(rng, prop) for _ in range(6000 if T else 900)]
        out += [self.records(rng) for _ in range(600 if T else 100)]
        out += [self.forms(rng) for _ in range(300 if T else 40)]
        out += self.refusals(rng)
        out += [self.racing(rng) for _ in range(1500 if T else 250)]
        out += self.limits(rng)
        return out

    def contact(self, rng, pool):
        kw = {"style": rng.randrange(5)}
        x = rng.random()
        kw["exp"] = -1 if x < .25 else 0 if x < .45 else rng.choice([60, 61, 90, 100, 120, 600, 3600, 7200])
        if rng.random() < .3:
            kw["q"] = rng.choice([0, 1, 100, 250, 333, 500, 999, 1000])
        if rng.random() < .2:
            kw["inst"], kw["reg"] = rng.choice(INST), rng.choice([-1, 1, 2, 77])
        y = rng.random()
        if y < .03:
            kw["exp"], kw["expRaw"] = rng.choice([(-2, "abc"), (-2, "-1"), (-2, "60s"), (1, "1"), (59, "59"), (86401, "86401"),
                                                  (2000000000, "99999999999"), (-2, "99999999999999999999999")])
        elif y < .05:
            kw["q"], kw["qRaw"] = -2, rng.choice(["1.1", "-0.1", "x", "nan", "2", "inf", "1.001"])
        elif y < .06:
            kw["reg"], kw["regRaw"] = -2, rng.choice(["x", "-1", "4294967296"])
        elif y < .08:
            b = rng.choice(BADURI)
            return contact(b, style=0, bad=True)
        return contact(rng.choice(pool), **kw)

    def reg(self, rng, c, pool, aors):
        aor = rng.choice(aors)
        own, forms = AORS[aor]
        n = rng.choice([1, 1, 1, 1, 2, 2, 3, 4])
        kw = {"to": rng.choice(forms), "call": rng.choice(["c1", "c1", "c2", "Call-3@x"]), "cseq": self.seq + rng.choice([1, 1, 1, 1, 1, 0, -1, -2]),
              "join": rng.random() < .4, "wire": rng.random() < .5, "ua": rng.choice(["", "UA/1.0"]),
              "path": rng.choice(PATHS)}
        kw["cseq"] = max(0, kw["cseq"])
        if kw["wire"]:
            kw["cseq"] = max(1, kw["cseq"])
        self.seq = max(self.seq, kw["cseq"])
        x = rng.random()
        if x < .25:
            kw["hexp"] = rng.choice([0, 0, 60, 200, 3600, 1800])
        elif x < .28:
            kw["hexp"], kw["hexpRaw"] = rng.choice([(-2, "soon"), (10, "10"), (100000, "100000"), (-2, "-5")])
        cs = [self.contact(rng, pool) for _ in range(n)]
        y = rng.random()
        if y < .1:
            cs, kw["wild"] = [], True
            if rng.random() < .85:
                kw["hexp"], kw["hexpRaw"] = 0, None
        elif y < .12:
            kw["wild"] = True
        elif y < .14:
            cs = []
        elif y < .16 and not kw["wire"]:
            kw["cseqBad"] = rng.choice(["num", "method", "huge", "big"])
        elif y < .18 and not kw["wire"]:
            kw["miss"] = rng.choice(["Via", "From", "Call-ID", "CSeq"])
        elif y < .2:
            kw["path"], kw["pathBad"] = rng.choice(["no-brackets", "<sip:p1.example.com;lr"]), True
        elif y < .22:
            kw["to"], kw["toBad"] = rng.choice(BADTO), True
        if c["auth"]:
            u = rng.choice(USERS)
            owners = [w for w in USERS if ident(w["u"]) == own]
            if owners and rng.random() < .7:
                u = owners[0]
            mut = rng.choice(["ok"] * 6 + ["dual", "after", "none", "other", "before", "basic", "foreign", "wrongmethod", "resp"])
            pw = u["p"] if rng.random() < .9 else "wrong"
            kw["cr"] = cred(u["u"], pw, mut, own or "alice")
        if c["rl"]:
            kw["key"] = rng.choice(["k1", "k2", ""])
        if kw.get("toBad"):
            kw["aor"] = ""
            kw.pop("aor")
        return reg(aor, cs, **kw)

    def history(self, rng, prop):
        auth = rng.choice(["www", "proxy", "www", ""] if prop == "R03" else ["", "", "", "www", "proxy"])
        aors = rng.sample(list(AORS), rng.choice([1, 2, 2, 3]))
        if prop == "R03" and rng.random() < .5:
            aors = rng.choice([["sip:alice@example.com", "sip:Alice@example.com", "sips:alice@example.com"],
                               ["tel:+15551234567", "tel:+15551234567;ext=12;isub=7", "sip:+15551234567@example.com"],
                               ["sip:caf\u00e9@example.com", "sip:cafe\u0301@example.com", "sip:example.com"],
                               ["sip:alice@example.com", "sip:bob@example.com"]])
        mn, mx = rng.choice([(60, 86400), (60, 3600), (100, 7200)])
        c = cfg(auth, rng.choice(["sync", "async", "down", "up", "gate"] if rng.random() < .3 else ["sync", "async"]), mn, mx,
                rng.choice([mn, mx, 3600]), rng.choice([0] * 9 + [3]), rng.random() < .2, rng.random() < .2, aors)
        pool = rng.sample(URIS, rng.choice([1, 2, 3, 4]))
        self.seq = 1
        ev = []
        for _ in range(rng.randint(3, 16)):
            x = rng.random()
            if x < .72:
                ev.append(self.reg(rng, c, pool, aors))
                if rng.random() < .7:
                    ev.append(DUMP)
            elif x < .88:
                ev.append(tick(rng.choice([1, 999, 1000, 59000, 59999, 60000, 60001, 30500, 120000, 599999, 3600000, 1800000])))
            elif x < .91:
                ev.append({"op": "cleanup", "via": rng.choice(VIA)})
            elif x < .94:
                ev.append({"op": "find", "aor": rng.choice(aors)})
            elif x < .96:
                ev.append(self.record(rng, aors, pool))
            elif x < .98:
                ev.append({"op": "del", "aor": rng.choice(aors), "u": rng.choice(pool), "via": rng.choice(VIA)})
            else:
                ev.append({"op": "delall", "aor": rng.choice(aors), "via": rng.choice(VIA)})
        return {"cfg": c, "ev": ev + [DUMP]}

    def record(self, rng, aors, pool):
        """One binding written straight into the table."""
        if rng.random() < .1:
            bad = rng.choice([{"exp": 59}, {"exp": 86401}, {"cseq": -1}, {"q": 1001}, {"q": -1}, {"call": "c" * 257}, {"ua": "u" * 257}, {"ua": "u\r\nx"},
                              {"call": "a\tb"}, {"u": "sip:a\n@h"}, {"u": "sip:%s@h" % ("a" * 507)}, {"call": "c" * 256}, {"ua": "u" * 256}, {"u": "sip:%s@h" % ("a" * 506)}])
        else:
            bad = {}
        return put(**dict({"aor": rng.choice(aors), "u": rng.choice(pool), "exp": rng.choice([60, 100, 86400, 3600]), "call": rng.choice(["", "c1", "c2"]),
                           "cseq": rng.choice([0, self.seq, 2147483647]), "q": rng.choice([0, 500, 1000]), "ua": rng.choice(["", "UA/1", "UA/2"]), "path": rng.choice(PATHS),
                           "inst": rng.choice(INST), "reg": rng.choice([-1, -1, 0, 1, 2147483647]), "flow": rng.choice(["", "", "flow-1", "flow-2"]), "via": rng.choice(VIA)}, **bad))

    def records(self, rng):
        aors = rng.sample(list(AORS), 2)
        pool = rng.sample(URIS, 2)
        self.seq = rng.randint(1, 5)
        ev = []
        for _ in range(rng.randint(3, 10)):
            x = rng.random()
            if x < .75:
                ev.append(self.record(rng, aors, pool))
            elif x < .85:
                ev.append(tick(rng.choice([1000, 60000, 100000])))
            elif x < .9:
                ev.append({"op": "del", "aor": rng.choice(aors), "u": rng.choice(pool), "via": rng.choice(VIA)})
            else:
                ev.append(reg(aors[0], [contact(pool[0], rng.choice([0, 100]))], "c2", self.seq))
            ev.append(DUMP)
        return {"cfg": cfg(mode=rng.choice(["sync", "async"]), aors=aors), "ev": ev}

    def forms(self, rng):
        """Every written form of one address reaches the same bindings."""
        ev, seq = [], 0
        aor = rng.choice(list(AORS))
        for k, f in enumerate(AORS[aor][1] * 2):
            seq += 1
            ev.append(reg(aor, [contact(URIS[k % 3], rng.choice([0, 100, 200]), style=rng.randrange(5))], "c1", seq, to=f, wire=rng.random() < .5))
        ev.append(reg(aor, [], "c1", seq, to=AORS[aor][1][-1], hexp=0, wild=True))
        ev.append(DUMP)
        ev.append(reg(aor, [], "c1", seq + 1, to=AORS[aor][1][-1], hexp=0, wild=True))
        ev.append(DUMP)
        return {"cfg": cfg(mode=rng.choice(["sync", "async"]), aors=list(AORS)), "ev": ev}

    def refusals(self, rng):
        """A request with one unacceptable contact at every place changes nothing."""
        out = []
        A = "sip:alice@example.com"
        bads = [contact(b, bad=True) for b in BADURI] + [contact(URIS[3], -2, expRaw=x) for x in ("abc", "-1", "1.5", "60 60")] + \
            [contact(URIS[3], 1), contact(URIS[3], 59), contact(URIS[3], 86401)] + \
            [contact(URIS[3], 100, q=-2, qRaw=x) for x in ("1.1", "-1", "nan", "abc")] + \
            [contact(URIS[3], 100, reg=-2, regRaw="z"), contact(URIS[3], 100, instBad=True), contact("sip:%s@h" % ("l" * 520), 100),
             contact(URIS[0], 100), contact(URIS[0], 0)]
        for mode in ("sync", "async"):
            for b in bads:
                for pos in (0, 1, 2):
                    good = [contact(URIS[1], 0), contact(URIS[2], 300)]
                    cs = good[:pos] + [b] + good[pos:]
                    ev = [reg(A, [contact(URIS[0], 100), contact(URIS[1], 100)], "c1", 5), DUMP]
                    e = reg(A, cs, "c1", 5 if b["u"] == URIS[0] else 6, join=pos == 1)
                    if b["instBad"]:
                        for x in e["contacts"]:
                            if x["instBad"]:
                                x["form"] = x["u"] + ">;+sip.instance;x=<"
                        continue
                    ev += [e, DUMP, reg(A, good, "c1", 6), DUMP]
                    out.append({"cfg": cfg(mode=mode, aors=[A]), "ev": ev})
        # the limit on bindings of one address, reached by the last of several contacts
        for mode in ("sync", "async", "down", "up"):
            many = [contact("sip:m%d@h" % i, 100) for i in range(19)]
            for cs in ([contact(URIS[0], 100), contact(URIS[1], 100)], [contact("sip:m3@h", 0), contact(URIS[0], 100), contact(URIS[1], 100)],
                       [contact("sip:m3@h", 700), contact(URIS[0], 100), contact("sip:m4@h", 500), contact(URIS[1], 100)],
                       [contact(URIS[0], 100), contact("sip:m3@h", 0), contact(URIS[1], 100)]):
                out.append({"cfg": cfg(mode=mode, aors=[A]), "ev": [reg(A, many, "c1", 5), DUMP, reg(A, cs, "c1", 6), DUMP,
                                                                     reg(A, cs[:1], "c1", 7), DUMP, tick(100000), reg(A, cs, "c1", 8), DUMP]})
        # lengths and numbers beyond what the table takes
        for kw in ({"call": "c" * 257}, {"ua": "u" * 257}, {"cseqBad": "big"}, {"cseqBad": "huge"}, {"call": "c" * 256}, {"ua": "u" * 256}):
            for x in (0, 100):
                out.append({"cfg": cfg(aors=[A]), "ev": [reg(A, [contact(URIS[0], 100)], "c1", 5), reg(A, [contact(URIS[1], 100), contact(URIS[0], x)],
                                                         **dict({"call": "c1", "cseq": 6}, **kw)), DUMP]})
        long = "sip:%s@example.com" % ("a" * 497)
        for a in (long, long.replace("a@", "aa@")):
            out.append({"cfg": cfg(aors=[a]), "ev": [reg(a, [contact(URIS[0], 100)]), DUMP]})
        return out

    def racing(self, rng):
        c = cfg(mode="gate", aors=["sip:alice@example.com", "sip:bob@example.com"])
        self.seq = 1
        ev = []
        pool = URIS[:2]

        def one():
            e = reg(rng.choice(c["aors"]) if rng.random() < .2 else c["aors"][0], [contact(rng.choice(pool), rng.choice([0, 100, 200]))],
                    rng.choice(["c1", "c1", "c2"]), rng.randint(max(1, self.seq - 1), self.seq + 3))
            if rng.random() < .2:
                e = dict(e, contacts=[], wild=True, hexp=0, hexpRaw="0")
            elif rng.random() < .2:
                e["contacts"].append(contact(URIS[2], rng.choice([100, 10])))
            return e
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .4:
                ev.append(one())
            ev += [{"op": "race", "a": one(), "b": one()}, DUMP]
            self.seq += 2
        return {"cfg": c, "ev": ev}

    def limits(self, rng):
        A = "sip:alice@example.com"
        put1 = lambda u, exp=100: put(A, u, exp)
        full = [put1("sip:old@h", 500), {"op": "fill", "n": 99980, "exp": 100}] + [put1("sip:n%d@h" % i) for i in range(18)] + [DUMP] + \
            [reg(A, [contact("sip:n1@h", 400), contact("sip:y1@h", 100), contact("sip:y2@h", 100)], "c2", 9), DUMP,
             reg(A, [contact("sip:n1@h", 400)], "c2", 9), reg(A, [contact("sip:y1@h", 100)], "c2", 10), DUMP,
             reg("sip:bob@example.com", [contact("sip:y2@h", 100)], "c2", 9), reg(A, [contact("sip:y1@h", 200)], "c2", 11), DUMP,
             tick(100000), reg("sip:bob@example.com", [contact("sip:y3@h", 100)], "c2", 9),
             {"op": "cleanup", "via": ""}, reg("sip:bob@example.com", [contact("sip:y3@h", 100)], "c2", 9), DUMP]
        aor = [put1("sip:n%d@h" % i, 60 + i) for i in range(21)] + [DUMP, tick(61000), put1("sip:z@h"), {"op": "find", "aor": A}, put1("sip:z@h"),
               tick(200000), {"op": "cleanup", "via": ""}, {"op": "cleanup", "via": ""}, DUMP]
        return [{"cfg": cfg(aors=[A, "sip:bob@example.com"]), "ev": full}, {"cfg": cfg(aors=[A]), "ev": aor}]

    def must_see(self, prop, tier):
        return ["reg:reg", "race:race", "dump:tab", "cleanup:n", "put:err"]

    def owners(self, m):
        e = m["trace"]["ev"][m["i"]]
        if m["trace"]["cfg"]["auth"] and e["op"] == "reg":
            return ("R01", "R02", "R03")
        return ("R01", "R02", "R03")


def dumps(script):
    script["ev"] = [x for e in script["ev"] for x in ([e, DUMP] if e["op"] == "reg" else [e])]
    return script


SUITES = [Registrar()]
