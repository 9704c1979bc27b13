import ipaddress, itertools
from lib import tset
from .base import Suite

H = "example.com"


def uri(host=H, sips=False, port=0, tp=(), num=""):
    if not num:
        try:
            num = str(ipaddress.ip_address(host).version)
        except ValueError:
            pass
    return {"sips": sips, "host": host, "num": num, "port": port, "tp": list(tp)}


def naptr(o, p, s, r, n=H):
    return {"n": n, "o": o, "p": p, "s": s, "r": r}


def srv(n, p, w, port, t):
    return {"n": n, "p": p, "w": w, "port": port, "t": t}


def adr(ip, n=H):
    return {"n": n, "ip": ip}


def fail(n, ty, how):
    return {"n": n, "ty": ty, "how": how}


def zone(naptr=(), srv=(), a=(), aaaa=(), fails=()):
    return {"naptr": list(naptr), "srv": list(srv), "a": list(a), "aaaa": list(aaaa), "fail": list(fails)}


def resolve(u, via="dns"):
    return {"op": "resolve", "via": via, "u": u}


def dhcp(how="list", servers=()):
    return {"op": "dhcp", "how": how, "servers": list(servers)}


def ip(v):
    return {"k": "ip", "v": v, "num": ""}


def dom(v):
    return {"k": "name", "v": v, "num": uri(v)["num"]}


def opt(no, b):
    return {"op": "option", "no": no, "bytes": list(b)}


def wire(*names):
    out = []
    for n in names:
        for l in n.split("."):
            out += [len(l), *l.encode("latin-1")]
        out.append(0)
    return out


def Z(z):
    return {"op": "zone", "z": z}


SVC = {"udp": "_sip._udp.", "tcp": "_sip._tcp.", "tls": "_sips._tcp.", "sctp": "_sip._sctp.", "tls-sctp": "_sips._sctp.", "ws": "_sip._tcp.", "wss": "_sips._tcp."}
FIELD = {"udp": "SIP+D2U", "tcp": "SIP+D2T", "tls": "SIPS+D2T", "sctp": "SIP+D2S", "tls-sctp": "SIPS+D2S", "ws": "SIP+D2W", "wss": "SIPS+D2W"}
TPS = list(SVC)
HOSTS = [H, "EXAMPLE.com", "voice.example.net", "a-b.c-d.example.org", "host"]
NUMERIC = ["192.0.2.1", "2001:db8::1", "::1", "10.0.0.255", "2001:DB8::A"]
NUMBERS = ["+15551234567", "+1", "+", "", "15551234567", "+1-555", "+1 5", "+44a", "++1", "+123456789012345678", "+0", "+٣", "tel:+1", "+1+", "+12.3"]
TELS = [("tel:+1-555-123-4567", "+15551234567"), ("tel:+1(2).3", "+123"), ("tel:5551234;phone-context=example.com", "5551234"), ("tel:+44;ext=5", "+44"),
        ("tel:*31#;phone-context=+1", "*31#"), ("tel:12;phone-context=+1", "12")]
REGEXPS = ["!^.*$!sip:u@h!", "!^.*$!sip:u@h!i", "/^.*$/sip:u@h/", "|a|sip:u|", "!a!!", "!!sip:u@h!", "!a!sip:u@h", "!a", "!", "", " !a!sip:u@h! ", "!^\\\\+1(.*)$!sip:\\\\1@h!",
           "!a\\!b!sip:u\\!v@h!", "!a!sip:u@h!!", "x", "!a\\", "!a!b\\", "#a#sip:u!v#", "!a!b!c!d!", "\t!a!b!"]


class Dns(Suite):
    name = "dns"
    module = "Dns"
    props = ("N01", "N02", "N03")

    def owners(self, m):
        e = m["trace"]["ev"][m["i"]]
        if e["op"] == "enum":
            return ("N03",)
        if e["op"] == "option" or e["op"] == "dhcp" or (e["op"] == "resolve" and e["via"] != "dns"):
            return ("N02",)
        if e["op"] in ("static",):
            return ("N01", "N02")
        return ("N01",)

    def mc(self, tier, prop):
        T = tier == "thorough"
        base = dict(module="M_Dns", inv=["TypeOK", "Kept", "Direct", "Numeric", "Names5922", "Pure", "Rising", "Few"], view="View", emit=True)
        S = lambda k, h=H: SVC[k] + h
        naptrs = [[], [naptr(1, 1, "SIPS+D2T", S("tls"))], [naptr(2, 1, "SIP+D2T", S("tcp")), naptr(1, 2, "sip+d2u", S("udp"))],
                  [naptr(1, 1, "SIP+D2U", "other." + H), naptr(1, 1, "SIPS+D2T", S("tls", "x." + H))], [naptr(1, 1, "E2U+sip", "x." + H), naptr(2, 1, "SIP+D2T", ".")],
                  [naptr(1, 2, "SIP+D2U", S("udp")), naptr(1, 1, "SIP+D2T", S("tcp"))]]
        srvs = [[], [srv(S("tcp"), 1, 0, 5070, "t1")], [srv(S("udp"), 2, 1, 5060, "u1"), srv(S("udp"), 1, 1, 5061, "u2")],
                [srv(S("tls"), 1, 5, 5061, "s1"), srv(S("tls"), 1, 5, 5062, "s2"), srv(S("tcp"), 1, 1, 5060, ".")],
                [srv("other." + H, 7, 0, 1, "o1"), srv(S("tls", "x." + H), 3, 0, 2, "o2."), srv(S("udp"), 9, 0, 3, "o3")]]
        ads = [([], []), ([adr("192.0.2.1"), adr("192.0.2.2")], [adr("2001:db8::1")]), ([], [adr("2001:db8::1")]), ([adr("192.0.2.1")], [])]
        fails = [[], [fail(H, "NAPTR", "servfail")], [fail(S("tcp"), "SRV", "refused")], [fail(H, "A", "servfail")]]
        if T:
            fails += [[fail(H, "NAPTR", "drop")], [fail(S("tls"), "SRV", "drop"), fail(H, "AAAA", "nx")], [fail(S("udp"), "SRV", "nx"), fail(S("tcp"), "SRV", "empty")]]
        zones = [zone(n, s, *a, f) for n in naptrs for s in srvs for a in (ads if T else ads[:3]) for f in fails]
        uris = [uri(sips=s, tp=t, port=p) for s in (False, True) for t in ([], ["tcp"], ["TLS"], ["udp"]) for p in (0, 5080)] + [uri("192.0.2.9"), uri("2001:db8::9", True, 0, ["ws"])]
        out = []
        if prop == "N01":
            out.append(dict(base, consts={"Zones": tset(zones), "Uris": tset(uris if T else [u for u in uris if not u["port"] or u["sips"]]), "Vias": tset(["dns"]), "Offers": tset([]), "Others": tset([]),
                                          "Naptr": "{TRUE, FALSE}" if T else "{TRUE}"}))
        if prop == "N02":
            d = [ip("192.0.2.7"), dom(H), dom("none.example"), dom("192.0.2.8"), dom("bad host"), dom("x." + H)]
            offers = [dhcp("none"), dhcp("fail")] + [dhcp("list", x) for k in range(0, 4 if T else 3) for x in itertools.product(d, repeat=k)]
            zs = [zone(), zone([], [srv(S("tcp"), 1, 0, 5070, "t1"), srv(S("tls"), 2, 0, 5071, "t2")], [adr("192.0.2.1")]),
                  zone([], [], [adr("192.0.2.1")], [adr("2001:db8::1", "x." + H)], [fail("none.example", "A", "servfail")])]
            us = [uri("orig.example"), uri(H, True, 5080), uri(H, tp=["tls"]), uri("192.0.2.9")]
            out.append(dict(base, consts={"Zones": tset(zs), "Uris": tset(us), "Vias": tset(["dhcp", "hybrid"]), "Offers": tset(offers), "Others": tset([]), "Naptr": "{TRUE}"}))
            oth = [opt(n, b) for n in (66, 120, 150) for k in range(0, 7 if T else 6) for b in itertools.product([0, 1, 2, 97], repeat=k)]
            oth = [o for i, o in enumerate(oth) if T or i % 3 == 0 or len(o["bytes"]) < 5]
            out.append(dict(base, consts={"Zones": tset([]), "Uris": tset([]), "Vias": tset([]), "Offers": tset([]), "Others": tset(oth), "Naptr": "{TRUE}"}))
        if prop == "N03":
            recs = [{"id": i, "o": o, "p": p, "f": "u", "s": s} for i, (o, p, s) in enumerate(itertools.product((1, 2), (1, 2), ("E2U+sip", "E2U+mailto")))]
            oth = [{"op": "enum", "k": "recs", "recs": [dict(r, id=i) for i, r in enumerate(x)]} for k in range(0, 5 if T else 4) for x in itertools.product(recs, repeat=k)]
            chars = "!\\ab"
            oth += [{"op": "enum", "k": "uri", "x": "".join(x)} for k in range(0, 7 if T else 6) for x in itertools.product(chars, repeat=k)]
            oth += [{"op": "enum", "k": "name", "x": "".join(x)} for k in range(0, 6) for x in itertools.product("+0a9", repeat=k)]
            out.append(dict(base, consts={"Zones": tset([]), "Uris": tset([]), "Vias": tset([]), "Offers": tset([]), "Others": tset(oth), "Naptr": "{TRUE}"}))
        return out

    # ------------------------------------------------------------ generation
    def zone(self, rng, hosts):
        ns, ss, a4, a6, fs = [], [], [], [], []
        names = []
        for h in hosts:
            l = h.lower()
            if rng.random() < .55:
                for _ in range(rng.choice([1, 2, 2, 3, 4])):
                    k = rng.choice(TPS)
                    r = rng.choice([SVC[k] + l, SVC[k] + l, SVC[k] + l, "srv%d.%s" % (rng.randint(1, 2), l), "_x._y.other.example", "."])
                    names.append(r)
                    f = FIELD[k] if rng.random() < .9 else rng.choice(["", "E2U+sip", "XSIP", "SIP+D2X", "h323"])
                    ns.append(naptr(rng.choice([1, 1, 2, 10, 300, 65535]), rng.choice([0, 1, 2, 10, 300, 65535]), rng.choice([f, f, f.lower()]), r, l))
            names += [SVC[k] + l for k in ("udp", "tcp", "tls", "sctp")]
            for (lst, pool) in ((a4, ["192.0.2.%d" % i for i in range(1, 9)]), (a6, ["2001:db8::%d" % i for i in range(1, 9)])):
                if rng.random() < .6:
                    lst += [adr(x, l) for x in rng.sample(pool, rng.choice([1, 1, 2, 3, 5]))]
            if rng.random() < .15:
                fs.append(fail(l, rng.choice(["NAPTR", "A", "AAAA"]), rng.choice(["nx", "servfail", "refused", "empty", "drop"])))
        names = sorted({n for n in names if n != "."})
        for n in names:
            if rng.random() < .5:
                for i in range(rng.choice([1, 1, 2, 3])):
                    ss.append(srv(n, rng.choice([0, 1, 2, 10, 256, 65535]), rng.choice([0, 1, 10, 65535]), rng.choice([1, 5060, 5061, 65535]),
                                  rng.choice(["s%d.example.com" % i, "S%d.Example.Net." % i, "192.0.2.%d" % (20 + i), "."] if rng.random() < .3 else ["s%d.example.com" % i])))
            elif rng.random() < .1:
                fs.append(fail(n, "SRV", rng.choice(["nx", "servfail", "refused", "empty", "drop"])))
        rng.shuffle(ns)
        rng.shuffle(ss)
        return zone(ns, ss, a4, a6, fs)

    def uri(self, rng, hosts):
        host = rng.choice(hosts + NUMERIC[:2]) if rng.random() < .9 else rng.choice(NUMERIC)
        return uri(host, rng.random() < .3, rng.choice([0, 0, 0, 0, 5060, 5061, 1, 65535]),
                   rng.choice([[], [], [], [rng.choice(["tcp", "TCP", "udp", "tls", "TLS", "ws", "wss", "sctp", "tls-sctp", "Tls-Sctp", "quic"])]]))

    def servers(self, rng, hosts):
        return [rng.choice([ip("192.0.2.%d" % rng.randint(100, 110)), dom(rng.choice(hosts)), dom(rng.choice(hosts)), dom("none.example"), dom("192.0.2.77"),
                            dom(rng.choice(["bad host", "a;b", "", "x@y", "a:b", "a" * 254, "h?x"]))]) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]

    def option(self, rng):
        no = rng.choice([120, 120, 120, 66, 150])
        label = lambda: "".join(rng.choice("abcXYZ019-_") for _ in range(rng.choice([1, 2, 3, 5, 62, 63] if rng.random() < .2 else [1, 2, 3, 7])))
        name = lambda: ".".join(label() for _ in range(rng.choice([1, 2, 3, 4])))
        if no == 120:
            b = [0] + wire(*[name() for _ in range(rng.choice([1, 1, 2, 3]))]) if rng.random() < .7 else [1] + [rng.choice([0, 1, 9, 10, 127, 128, 255]) for _ in range(4 * rng.choice([1, 2, 3]))]
        elif no == 66:
            b = list(rng.choice([name(), name(), "192.0.2.1", "  a b  ", "a" * 253, "a" * 254]).encode()) + [0] * rng.choice([0, 0, 1, 2])
        else:
            b = [rng.randrange(256) for _ in range(4 * rng.choice([1, 2, 5]))]
        x = rng.random()
        if x < .3 and b:
            k = rng.randrange(len(b))
            b = b[:k] + rng.choice([[], [0], [255], [13], [64], [b[k], b[k]], [46], [32]]) + b[k + 1:]
        elif x < .35:
            b = b[:rng.randint(0, len(b))]
        elif x < .4:
            b = b + [rng.choice([0, 1, 3, 255])]
        return opt(no, b)

    def gen(self, rng, tier, prop):
        T = tier == "thorough"
        out = []
        cfg = lambda: {"naptr": rng.random() < .9}
        if prop in ("N01", "N02"):
            for _ in range(6000 if T else 900):
                hosts = rng.sample(HOSTS, rng.choice([1, 1, 2]) if prop == "N01" else rng.choice([2, 3]))
                ev = []
                for _ in range(rng.choice([1, 1, 2])):
                    ev.append(Z(self.zone(rng, hosts)))
                    for _ in range(rng.choice([2, 4, 6]) if prop == "N01" else rng.choice([1, 2, 3])):
                        if prop == "N01" and rng.random() < .9:
                            ev.append(resolve(self.uri(rng, hosts)))
                        else:
                            how = rng.choice(["list"] * 8 + ["none", "fail"])
                            ev.append(dhcp(how, self.servers(rng, hosts) if how == "list" else []))
                            u = self.uri(rng, hosts)
                            ev += [resolve(u, v) for v in rng.choice([["dhcp"], ["hybrid"], ["dhcp", "hybrid"], ["hybrid", "dns"]])]
                out.append({"cfg": cfg(), "ev": ev})
        many = lambda n, svc, k: [srv(svc + H, i, 0, 5060 + i, "%s%d" % (k, i)) for i in range(n)]
        if prop in ("N01", "N02"):
            out.append({"cfg": {"naptr": True}, "ev": [{"op": "static", "n": n} for n in (0, 1, 99, 100, 101, 200)]})
            for n, m in ((50, 50), (51, 50), (50, 51), (60, 60), (60, 40), (1, 60)):
                z = zone([], many(n, SVC["tcp"], "t") + many(m, SVC["udp"], "u"), [adr("192.0.2.1")])
                out.append({"cfg": {"naptr": True}, "ev": [Z(z), resolve(uri()), resolve(uri(tp=["tcp"])), dhcp("list", [dom(H), ip("192.0.2.3")]), resolve(uri("z"), "dhcp"),
                                                           resolve(uri("z"), "hybrid"), dhcp("list", [ip("192.0.2.%d" % (i % 250)) for i in range(n + m)]), resolve(uri(), "dhcp"), resolve(uri(), "hybrid")]})
        if prop == "N01":
            for w in ([1, 3, 6], [6, 3, 1], [2, 8], [5, 5], [1, 1, 1], [9, 1], [1, 9], [3, 1, 6]):
                z = zone([], [srv(SVC["udp"] + H, 1, x, 5060, "d%d" % (i + 1)) for i, x in enumerate(w)])
                out.append({"cfg": {"naptr": False}, "ev": [Z(z), {"op": "draw", "u": uri(tp=["udp"]), "n": 400, "w": w}]})
            for _ in range(400 if T else 120):
                h = rng.choice(["example.com", "2001:db8::1", "", "a" * 253, "a" * 254, "a\r\nb", "a\tb", "x y", "h."])
                out.append({"cfg": cfg(), "ev": [{"op": "target", "host": h, "port": rng.choice([0, 1, 65535]), "tp": rng.choice(TPS), "pr": rng.choice([0, 65535]), "tls": rng.choice(["", "n.example"])}]})
        if prop == "N02":
            out += [{"cfg": {"naptr": True}, "ev": [self.option(rng) for _ in range(8)]} for _ in range(3000 if T else 500)]
        if prop == "N03":
            one = lambda **kw: dict({"op": "enum"}, **kw)
            out.append({"cfg": {"naptr": True}, "ev": [one(k="name", x=x) for x in NUMBERS] + [one(k="tel", x=x, num=n) for x, n in TELS] + [one(k="uri", x=x) for x in REGEXPS]})
            for _ in range(4000 if T else 800):
                ev = []
                for _ in range(4):
                    x = rng.random()
                    if x < .3:
                        d = "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 18)))
                        d = rng.choice(["+", "+", "+", ""]) + d
                        if rng.random() < .3:
                            k = rng.randint(0, len(d))
                            d = d[:k] + rng.choice("-. a+x") + d[k:]
                        ev.append(one(k="name", x=d))
                    elif x < .6:
                        d = rng.choice("!/|#")
                        t = "".join(rng.choice(["a", "^.*$", d, "\\", "\\" + d, "sip:u@h", " ", "!", "\\\\1"]) for _ in range(rng.randint(0, 6)))
                        ev.append(one(k="uri", x=rng.choice(["", " "]) + d + t + rng.choice([d, d + "i", ""])))
                    else:
                        n = rng.randint(0, 6)
                        ev.append(one(k="recs", recs=[{"id": i, "o": rng.choice([0, 1, 2, 100, 65535]), "p": rng.choice([0, 1, 2, 65535]), "f": rng.choice(["u", "U", "", "s", "nu"]),
                                                       "s": rng.choice(["E2U+sip", "E2U+sip", "e2u+SIP", "E2U+sips", "E2U+mailto", "sip+E2U", "E2U+sip ", "XE2U+sip", ""])} for i in range(n)]))
                out.append({"cfg": {"naptr": True}, "ev": ev})
        return out

    def must_see(self, prop, tier):
        return {"N01": ["resolve:t", "resolve:err", "draw:drawn", "target:t", "target:err"], "N02": ["resolve:t", "resolve:err", "option:list", "option:err"], "N03": ["enum:enum", "enum:recs"]}[prop]


SUITES = [Dns()]
