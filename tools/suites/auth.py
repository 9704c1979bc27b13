from .base import Suite
from lib import tset

ALGS = ["MD5", "MD5-sess", "SHA-256", "SHA-256-sess", "SHA-512", "SHA-512-sess", "SHA-512-256", "SHA-512-256-sess"]
USERS = [{"u": "alice", "p": "wonder"}, {"u": "bob", "p": "builder"}, {"u": "j\u00fcrg, x=1", "p": "p:w\u00f6"}]
BENIGN = ["alg-missing", "alg-case", "extra", "scheme-case", "qop-quoted", "nc-short", "spaces"]
FIELDS = ["username", "realm", "nonce", "uri", "response", "qop", "nc", "cnonce", "opaque"]
HARM = (["realm", "realm-case", "alg", "alg-lie", "alg-bad", "opaque", "qop-other", "qop-lie", "nc-bad", "nc-long",
         "uri", "uri-signed", "method-signed", "body-signed", "nonce-signed", "cn-signed", "nc-signed", "resp-flip",
         "resp-upper", "resp-trunc", "resp-empty", "resp-long", "hdr", "scheme", "user-signed", "realm-signed",
         "noauth", "legacy", "nonce-empty"]
        + [f + "-missing" for f in FIELDS] + ["dup-" + f for f in FIELDS])
URIS = ["sip:example.com", "sip:bob@example.com;transport=tcp", "sips:bob@example.com", "sip:b%20b@[2001:db8::1]:5061"]
METHODS = ["REGISTER", "INVITE", "BYE", "MESSAGE"]
BODIES = ["", "v=0", "a=b\r\nc=d\r\n"]
SRC = ["", "1.1.1.1", "2.2.2.2", "2001:db8::1", "plain.example"]


def cfg(alg="SHA-256", qop="auth", proxy=False, ttl=300000, age=10000, rl=0, mx=4, asynch=False):
    return {"alg": alg, "qop": qop, "proxy": proxy, "ttl": ttl, "age": age, "users": USERS, "rl": rl, "max": mx, "async": asynch}


def attempt(n, nc, user="alice", pw="wonder", muts=(), method="REGISTER", uri="sip:example.com", body="", src="",
            cn="c0c0c0c0", style=0):
    return {"op": "attempt", "n": n, "nc": nc, "user": user, "pass": pw, "muts": list(muts), "method": method,
            "uri": uri, "body": body, "src": src, "cn": cn, "style": style}


def chal(stale=False, style=0, tag=False, vias=1):
    return {"op": "chal", "stale": stale, "style": style, "tag": tag, "vias": vias}


def group(m):
    """Deviations that would interfere with each other share a group."""
    if m.endswith("signed") or m.endswith("lie"):
        return m
    p = m.split("-")
    return p[1] if p[0] == "dup" else p[0]


class Auth(Suite):
    name = "auth"
    module = "Auth"
    props = ("A01", "A02", "A03", "A04")

    def mc(self, tier, prop):
        T = tier == "thorough"
        tick = lambda d: {"op": "tick", "dt": d}
        send = lambda k, uri="sip:example.com": {"op": "send", "k": k, "method": "REGISTER", "uri": uri, "body": "", "src": ""}
        sign = lambda c, n, u="alice", p="wonder": {"op": "sign", "c": c, "n": n, "user": u, "pass": p,
                                                   "method": "REGISTER", "uri": "sip:example.com", "body": ""}
        info = lambda k, next, vn=1: {"op": "info", "k": k, "method": "REGISTER", "uri": "sip:example.com", "body": "", "src": "",
                                      "rbody": "r", "next": next, "vuser": "alice", "vpass": "wonder", "vn": vn,
                                      "vuri": "sip:example.com", "vbody": "r"}
        inv = ["TypeOK", "NoReplay", "Sound"]
        pr = ["NoTrace", "Final", "Interop"]
        base = dict(module="M_Auth", inv=inv, prop=pr)
        short = cfg(ttl=4000, age=2000, mx=2)
        replay = [chal(), tick(1500), tick(2600)] + [attempt(1, 1), attempt(1, 2), attempt(1, 2, uri="sip:x@example.com"),
                  attempt(1, 3, pw="bad"), attempt(1, 1, user="bob", pw="builder"), attempt(2, 1), attempt(1, 0)]
        nonces = [{"op": "m_gen"}, tick(1999), tick(2001), {"op": "m_clean"}] + \
            [{"op": "m_use", "n": n, "nc": c, "method": "INVITE", "uri": u, "body": ""} for n in (1, 2, 3) for c in (1, 2)
             for u in (("sip:a@x", "sip:b@x") if T or (n, c) == (1, 1) else ("sip:a@x",))] + \
            [{"op": "m_look", "n": n} for n in (1, 2, 3)]
        client = [chal(), tick(2500), sign("c", 1), sign("c", 2), sign("d", 1, p="wrong"), send(1), send(2), send(3), send(4),
                  info(1, True), info(2, False, 2), {"op": "stale", "n": 1, "hdr": True}]
        return [dict(base, emit=True, consts={"Acts": tset(replay), "Depth": 5 if T else 4, "MaxNow": 6000,
                                              "Cfgs": tset([short])}),
                dict(base, emit=True, consts={"Acts": tset(nonces), "Depth": 6 if T else 5, "MaxNow": 6000,
                                              "Cfgs": tset([short] + ([cfg(ttl=4000, age=2000, mx=1)] if T else []))}),
                dict(base, emit=True, consts={"Acts": tset(client), "Depth": 6 if T else 5, "MaxNow": 6000,
                                              "Cfgs": tset([short, dict(short, qop="auth-int", alg="MD5-sess", proxy=True)] if T else [short])}),
                dict(base, emit=False, consts={"Acts": tset(replay + client[2:8]), "Depth": 6 if T else 5, "MaxNow": 9000,
                                               "Cfgs": tset([short])})]

    def gen(self, rng, tier, prop):
        T = tier == "thorough"
        out = []
        # every single deviation, for every algorithm and quality of protection
        for alg in ALGS:
            for qop in ("auth", "auth-int"):
                for proxy in (False, True):
                    c = cfg(alg, qop, proxy, asynch=rng.random() < 0.5)
                    ev = [chal(style=rng.choice([0, 1, 2, 3, 5]), tag=rng.random() < .5, vias=rng.randint(1, 3))]
                    nc = 0
                    for m in BENIGN + HARM:
                        nc += 1
                        u = rng.choice(USERS)
                        ev.append(attempt(1, nc, u["u"], u["p"], [m], rng.choice(METHODS), rng.choice(URIS), rng.choice(BODIES),
                                          rng.choice(SRC), "cn%d" % nc, rng.randrange(3)))
                    u = rng.choice(USERS)
                    ev.append(attempt(1, nc + 1, u["u"], u["p"]))
                    ev.append({"op": "count"})
                    out.append({"cfg": c, "ev": ev})
        for _ in range(3000 if T else 500):
            out.append(self.server(rng))
        for _ in range(2000 if T else 350):
            out.append(self.client(rng))
        for _ in range(2000 if T else 400):
            out.append(self.table(rng))
        for _ in range(60 if T else 12):
            out.append(self.storms(rng))
        out += self.special(rng)
        return out

    def rcfg(self, rng):
        return cfg(rng.choice(ALGS), rng.choice(["auth", "auth-int"]), rng.random() < .4,
                   rng.choice([1, 1000, 5001, 30000, 300000]), rng.choice([0, 1000, 2000, 10000, 400000]),
                   rng.choice([0, 0, 0, 1, 2, 3]), 4, rng.random() < .5)

    def server(self, rng):
        c = self.rcfg(rng)
        ev = [chal(rng.random() < .2, rng.choice([0, 1, 2, 3, 5]), rng.random() < .3, rng.randint(0, 3))]
        issued, sent = 1, []
        last = {}
        for _ in range(rng.randint(4, 30)):
            x = rng.random()
            n = rng.choice([0, -1]) if rng.random() < .07 else rng.randint(max(1, issued - 2), issued)
            u = rng.choice(USERS)
            if x < .12:
                ev.append(chal(rng.random() < .2, rng.choice([0, 1, 2, 3, 5]), rng.random() < .3, rng.randint(0, 3)))
                issued += 1
            elif x < .62:
                l = last.get(n, 0)
                nc = rng.choice([l + 1] * 8 + [l, l, max(0, l - 1), l + 2, l + 999, l + 1000, l + 1001, 0, 1, 1000000, 1000001])
                muts = []
                if rng.random() < .3:
                    for m in rng.sample(BENIGN + HARM, rng.randint(1, 3)):
                        if group(m) not in [group(y) for y in muts]:
                            muts.append(m)
                a = attempt(n, nc, u["u"], u["p"], muts, rng.choice(METHODS[:2]), rng.choice(URIS[:2]), rng.choice(BODIES[:2]),
                            rng.choice(SRC), rng.choice(["c1", "c2", "\u00e9, x"]), rng.randrange(3))
                y = rng.random()
                if y < .06:
                    a["pass"] = rng.choice(["", "Wonder", u["p"] + " ", u["p"] + "-elsewhere"])
                elif y < .1:
                    a["user"], a["pass"] = "mallory", rng.choice(["", "wonder"])
                elif y < .12:
                    a["user"] = u["u"].upper()
                ev.append(a)
                sent.append(a)
                if not muts and nc <= l + 1000:
                    last[n] = max(l, nc)
            elif x < .78 and sent:
                k = rng.randint(max(1, len(sent) - 3), len(sent))
                a = sent[k - 1]
                y = rng.random()
                ev.append({"op": "send", "k": k, "method": rng.choice(METHODS) if y < .2 else a["method"],
                           "uri": rng.choice(URIS) if .2 < y < .4 else a["uri"],
                           "body": rng.choice(BODIES) if .4 < y < .6 else a["body"], "src": rng.choice(SRC)})
            elif x < .86:
                ev.append({"op": "stale", "n": n, "hdr": rng.random() < .85})
            elif x < .95:
                ev.append({"op": "tick", "dt": rng.choice([1, c["age"], c["age"] + 1, c["ttl"], c["ttl"] + 1, c["ttl"] // 2, 500, 1000]) or 1})
            else:
                ev.append({"op": "count"})
        return {"cfg": c, "ev": ev}

    def client(self, rng):
        c = self.rcfg(rng)
        c["rl"] = 0
        ev = [chal(vias=2)]
        issued = 1
        signed = []
        cl = {"c1": "alice", "c2": "bob", "c3": "alice", "c4": USERS[2]["u"], "bad": "alice"}
        pw = {u["u"]: u["p"] for u in USERS}
        for _ in range(rng.randint(4, 25)):
            x = rng.random()
            name = rng.choice(list(cl))
            n = rng.choice([0, -1]) if rng.random() < .03 else rng.randint(max(1, issued - 1), issued)
            if x < .1:
                ev.append(chal())
                issued += 1
            elif x < .5:
                u = cl[name]
                a = {"op": "sign", "c": name, "n": n, "user": u, "pass": "nope" if name == "bad" else pw[u],
                     "method": rng.choice(METHODS), "uri": rng.choice(URIS), "body": rng.choice(BODIES)}
                if rng.random() < .06:
                    ev.append(dict(a, op="skip", k=rng.choice([1, 5, 998, 999, 1000, 1500])))
                ev.append(a)
                signed.append(a)
                if rng.random() < .85:
                    ev.append({"op": "send", "k": len(signed), "src": "", **{f: a[f] for f in ("method", "uri", "body")}})
            elif x < .62 and signed:
                k = rng.randint(1, len(signed))
                a = signed[k - 1]
                ev.append({"op": "send", "k": k, "src": "", **{f: a[f] for f in ("method", "uri", "body")}})
            elif x < .9 and signed:
                k = len(signed) if rng.random() < .8 else rng.randint(1, len(signed))
                a = signed[k - 1]
                rb = rng.choice(BODIES)
                e = {"op": "info", "k": k, "src": "", **{f: a[f] for f in ("method", "uri", "body")}, "rbody": rb,
                     "next": rng.random() < .5, "vuser": a["user"], "vpass": pw[a["user"]], "vn": a["n"], "vuri": a["uri"], "vbody": rb}
                y = rng.random()
                if y < .1:
                    e["vpass"] = "other"
                elif y < .2:
                    e["vn"] = rng.randint(0, issued)
                elif y < .3:
                    e["vuri"] = rng.choice(URIS)
                elif y < .4:
                    e["vbody"] = rb + "!"
                elif y < .45:
                    e["vuser"] = "bob"
                ev.append(e)
            else:
                ev.append({"op": "tick", "dt": rng.choice([1, c["age"] + 1, c["ttl"] + 1, 900, c["ttl"]])})
        return {"cfg": c, "ev": ev}

    def table(self, rng):
        c = cfg(ttl=rng.choice([1000, 4001, 60000]), age=rng.choice([0, 1000, 5000]), mx=rng.choice([1, 2, 3, 4, 9, 10, 20, 25]))
        ev, top = [], 0
        for _ in range(rng.randint(5, 60)):
            x = rng.random()
            n = rng.randint(max(1, top - 4), top + 1)
            if x < .4:
                ev.append({"op": "m_gen"})
                top += 1
                if rng.random() < .6 or c["max"] > 9:
                    ev.append({"op": "tick", "dt": rng.choice([1, 10, 300])})
            elif x < .6:
                ev.append({"op": "m_use", "n": n, "nc": rng.choice([0, 1, 1, 2, 3, 5]), "method": rng.choice(METHODS[:2]),
                           "uri": rng.choice(URIS[:2]), "body": rng.choice(BODIES[:2])})
            elif x < .85:
                ev.append({"op": "m_look", "n": n if rng.random() < .7 else rng.randint(1, top + 1)})
            elif x < .95:
                ev.append({"op": "tick", "dt": rng.choice([1, c["age"] + 1, c["age"] or 1, c["ttl"], c["ttl"] + 1, c["ttl"] // 3])})
            else:
                ev.append({"op": "m_clean"})
        ev += [{"op": "m_look", "n": i} for i in range(1, top + 1)]
        return {"cfg": c, "ev": ev}

    def storms(self, rng):
        c = cfg(rng.choice(ALGS), proxy=rng.random() < .5)
        ev, nc, n = [chal()], 0, 1
        for _ in range(12):
            kind = rng.choice(["same", "diff", "run", "diff"])
            k = rng.randint(2, 8)
            if rng.random() < .2:
                ev.append(chal())
                n += 1
                nc = 0
            at = nc if kind == "run" else nc + 1
            ev.append({"op": "storm", "kind": kind, "threads": k, "n": n, "nc": at, "uri": "sip:s%d@example.com" % len(ev)})
            nc = at + k if kind == "run" else at
            ev.append(attempt(n, nc, uri="sip:late@example.com"))
            if rng.random() < .3:
                nc += 1
                ev.append(attempt(n, nc))
        return {"cfg": c, "ev": ev}

    def special(self, rng):
        c = cfg(ttl=400000)
        t = lambda d: {"op": "tick", "dt": d}
        cnt = {"op": "count"}
        cap = [chal(), t(10), {"op": "fill", "k": 500}, t(10), chal(), t(10), {"op": "fill", "k": 9497}, cnt, t(10), chal(), cnt,
               attempt(1, 1), t(10), chal(), cnt, attempt(1, 2), attempt(2, 1), attempt(3, 1), attempt(4, 1), t(10),
               {"op": "fill", "k": 1000}, cnt, attempt(2, 2), attempt(3, 2), t(399990), {"op": "fill", "k": 1500}, cnt, attempt(4, 2)]
        out = [{"cfg": c, "ev": cap}]
        # a byte changed anywhere in a long body or address is a different request
        def flip(x, k):
            return x[:k] + ("!" if x[k] != "!" else "_") + x[k + 1:]
        for alg in ("MD5", "SHA-256"):
            for qop in ("auth", "auth-int"):
                ev, nc = [chal()], 0
                for n in (30, 64, 65, 130, 300, 1025, 1100, 2049, 4200, 9000, 33000, 64000):
                    nc += 1
                    b = "".join(chr(97 + (i * i + n) % 26) for i in range(n))
                    u = "sip:" + ("u" * min(n, 60)) + "@example.com;p=" + "v" * min(n, 60)
                    ev.append(attempt(1, nc, body=b, uri=u))
                    ev.append(attempt(1, nc, body=b, uri=u))
                    for k in {0, n - 1, n // 2, rng.randrange(n), rng.randrange(n)}:
                        ev.append(attempt(1, nc, body=flip(b, k), uri=u))
                    ev.append(attempt(1, nc, body=b[:-1], uri=u))
                    ev.append(attempt(1, nc, body=b + "x", uri=u))
                    ev.append(attempt(1, nc, body=b, uri=u[:-1]))
                    ev.append(attempt(1, nc, body=b, uri=flip(u, len(u) - 20)))
                    ev.append(attempt(1, nc, muts=["body-signed"], body=b, uri=u))
                    nc += 1
                    ev.append(attempt(1, nc, muts=["body-signed"], body=b, uri=u))
                out.append({"cfg": cfg(alg, qop), "ev": ev})
        return out

    def must_see(self, prop, tier):
        return ["attempt:ok", "attempt:no", "send:ok", "send:no", "info:info", "info:none", "m_use:ok", "m_use:no", "storm:storm"]

    def owners(self, m):
        op = m["trace"]["ev"][m["i"]]["op"]
        return {"attempt": ("A01", "A02", "A03", "A04"), "send": ("A01", "A02", "A03", "A04"), "storm": ("A02",),
                "sign": ("A04",), "skip": ("A04",), "info": ("A04",), "chal": ("A03", "A04"), "stale": ("A03",),
                "count": ("A03",), "m_gen": ("A03",), "m_look": ("A03",), "m_clean": ("A03",),
                "m_use": ("A02", "A03")}.get(op, self.props)


SUITES = [Auth()]
