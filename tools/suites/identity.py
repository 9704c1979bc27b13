from lib import tset
from .base import Suite

X5U = "https://c.example/????????"
KINDS = ["p256", "p256", "p256", "p256", "p384", "ed"]
S = lambda x: {"t": "s", "v": x}
N = lambda x: {"t": "n", "v": str(x)}
NULL = {"t": "z"}
B = lambda b: {"t": "b", "v": b}
O = lambda *p: {"t": "o", "v": [[k, v] for k, v in p]}
L = lambda *x: {"t": "l", "v": list(x)}


def cert(key, name, ikey, iname, ca=False, plen=-1, nb=0, na=1000):
    return {"key": key, "name": name, "ikey": ikey, "iname": iname, "ca": ca, "plen": plen, "nb": nb, "na": na}


HEADER = O(("alg", S("ES256")), ("typ", S("passport")), ("ppt", S("shaken")), ("x5u", S(X5U)))
CLAIMS = O(("attest", S("A")), ("dest", O(("tn", L(S("+12155551213"))))), ("iat", N(1443208345)), ("orig", O(("tn", S("+12155551212")))), ("origid", S("123e")))


def token(h=HEADER, c=CLAIMS, key=1, *tam):
    return {"op": "token", "h": h, "c": c, "key": key, "tam": list(tam)}


def sign(key=1, *tam, **kw):
    return dict({"op": "sign", "key": key, "x5u": X5U, "attest": "A", "orig": "+1", "dest": ["+2"], "iat": "7", "origid": [], "tam": list(tam)}, **kw)


def verify(key=1, form=""):
    return {"op": "verify", "key": key, "form": form}


def chain(leaf, inters, anchors, now=500, junk=""):
    return {"op": "chain", "leaf": leaf, "inters": list(inters), "anchors": list(anchors), "now": now, "junk": junk}


def header(post="", pre="", fill=0):
    return {"op": "header", "pre": pre, "post": post, "fill": fill}


def put(s, f, v):
    return {"k": "put", "s": s, "f": f, "v": v}


def de(s, f):
    return {"k": "del", "s": s, "f": f}


def txt(s, how):
    return {"k": "text", "s": s, "how": how}


def sig(how, i=0):
    return {"k": "sig", "how": how, "i": i}


def enc(s, how):
    return {"k": "enc", "s": s, "how": how}


def parts(how):
    return {"k": "parts", "how": how}


PREV = {"k": "prevsig"}
FORMS = ["compressed", "tag", "tag0", "trunc", "long", "bare", "empty", "point", "zero"]
SIGS = ["trunc", "long", "front", "empty", "zero", "swap", "der", "twice"]
ENCS = [enc(s, h) for s in (1, 2, 3) for h in ("pad", "bang", "space", "line", "odd")] + [enc(1, "std"), enc(3, "trail")]
PARTS = [parts(h) for h in ("two", "four", "empty", "front", "one")]
PUTS = [put(1, "alg", S(x)) for x in ("es256", "RS256", "none", "ES384", "", "ES256 ")] + [put(1, "alg", NULL), put(1, "alg", N(5)), put(1, "typ", S("JWT")), put(1, "typ", NULL), put(1, "ppt", B(True)), put(1, "ppt", S("div")),
        put(1, "x5u", S("https://evil.example/c")), put(1, "x5u", NULL), put(1, "x5u", L()), put(1, "crit", L(S("x"))), put(1, "z", NULL),
        put(2, "attest", S("B")), put(2, "attest", S("C")), put(2, "attest", S("D")), put(2, "attest", S("a")), put(2, "attest", S("")), put(2, "attest", NULL), put(2, "attest", N(1)),
        put(2, "iat", N(1443208346)), put(2, "iat", N("9223372036854775807")), put(2, "iat", N("9223372036854775808")), put(2, "iat", N("-9223372036854775808")), put(2, "iat", N("-5")),
        put(2, "iat", N("1.5")), put(2, "iat", N("1e3")), put(2, "iat", S("5")), put(2, "iat", NULL), put(2, "iat", N(0)),
        put(2, "orig", O(("tn", S("+19")))), put(2, "orig", O()), put(2, "orig", NULL), put(2, "orig", S("+1")), put(2, "orig", O(("tn", N(5)))), put(2, "orig", O(("tn", S("1")), ("tn", S("2")))), put(2, "orig", O(("uri", S("sip:x")))),
        put(2, "dest", O(("tn", L()))), put(2, "dest", O(("tn", L(S("1"), S("2"), S("1"))))), put(2, "dest", O(("tn", L(S("1"), N(2))))), put(2, "dest", O(("tn", S("1")))), put(2, "dest", NULL), put(2, "dest", O(("uri", L(S("sip:x"))))),
        put(2, "dest", O(("tn", NULL))), put(2, "origid", NULL), put(2, "origid", S("é\"\\\u0007")), put(2, "origid", N(1)), put(2, "extra", O(("a", L(N(1)))))]
DELS = [de(1, f) for f in ("alg", "typ", "ppt", "x5u")] + [de(2, f) for f in ("attest", "dest", "iat", "orig", "origid")]
TEXTS = [txt(s, h) for s in (1, 2) for h in ("space", "junk", "cut")]
POSTS = ["", ";info=<https://c.example/c>;alg=ES256;ppt=shaken", " ; INFO = <https://c.example/c> ;Alg=ES256; PPT=shaken ", ";info=<https://c/x;v=1;w>;alg=ES256", ";info=\"<x>\"", ";info=https://c/x", ";info=<x", ";info=x>",
         ";info=<>", ";info= < a > ", ";ppt=\"shaken\"", ";ppt=\"a;info=<b>\"", ";ppt=\"\"", ";ppt=\"", ";ppt=", ";alg", ";;alg=a;;", ";alg=a;alg=b", ";info=<a>;info=<b>", ";info=<a>;info=b", ";x=\"y;alg=n\";alg=m",
         ";alg=\"a\\\"b\"", ";alg=a=b", ";=x", ";info=<a\"b>;ppt=c", "x", " x;alg=a", "\t\r\n ;alg=a", ";info=<a>b", ";x=<;ppt=1>;ppt=2", ";a\"b=1;ppt=c\"", ";information=<a>", ";xalg=1"]


class Identity(Suite):
    name = "identity"
    module = "Identity"
    props = ("I01",)

    PKI = [cert(1, "leaf", 3, "root"), cert(3, "root", 3, "root", True), cert(1, "leaf", 4, "mid"), cert(4, "mid", 3, "root", True, 0), cert(2, "leaf", 4, "mid"),
           cert(4, "root", 4, "root", True), cert(1, "leaf", 3, "root", True), cert(1, "leaf", 3, "root", nb=500, na=500), cert(4, "mid", 3, "root"), cert(4, "mid", 3, "root", True, na=400)]
    # two issuing certificates in a row, limits on how many may follow, other kinds of keys
    PKI2 = [cert(3, "root", 3, "root", True), cert(4, "m1", 3, "root", True, 1), cert(5, "m2", 4, "m1", True, 0), cert(1, "leaf", 5, "m2"), cert(4, "m1", 3, "root", True, 0),
            cert(5, "leaf5", 3, "root"), cert(6, "leaf6", 3, "root"), cert(6, "edroot", 6, "edroot", True), cert(1, "leaf", 6, "edroot"), cert(2, "m2", 4, "m1", True)]

    def mc(self, tier, prop):
        T = tier == "thorough"
        base = dict(module="M_Identity", inv=["TypeOK", "Unaltered", "OnlyES256", "NoAnchor", "Monotone", "HeaderNeedsToken"], view="View", emit=True)
        cfg = lambda c: {"kinds": KINDS, "certs": c}
        plain = [token(), token(HEADER, CLAIMS, 2), sign()]
        one = [token(HEADER, CLAIMS, 1, t) for t in PUTS + DELS + TEXTS + ENCS + PARTS + [sig(h) for h in SIGS] + [sig("flip", i) for i in range(0, 512, 1 if T else 9)]]
        one += [sign(1, t) for t in ENCS + PARTS + [sig(h) for h in SIGS] + [sig("flip", i) for i in range(3, 512, 16)]]
        mixed = [token(HEADER, CLAIMS, 2, PREV), token(HEADER, CLAIMS, 1, PREV), token(HEADER, CLAIMS, 1, put(2, "attest", S("B")), PREV), token(HEADER, CLAIMS, 1, put(2, "attest", S("B"))), token(HEADER, CLAIMS, 1, put(2, "attest", S("A"))),
                 sign(1, PREV), sign(2, PREV), sign(1, attest="B"), token(HEADER, CLAIMS, 1, sig("flip", 70)), sign(1, dest=[]), sign(1, orig="")]
        out = [dict(base, consts={"Cfgs": tset([cfg(self.PKI)]), "Makes": tset(plain + one), "Shows": tset([verify(), chain(1, [], [2]), header(POSTS[1])]), "Depth": 2})]
        idx = range(1, len(self.PKI) + 1)
        sub = [[], [4], [4, 2], [9, 10], [9, 10, 4], [10], [6, 4]]
        anc = [[], [2], [6], [4], [6, 2], [10]]
        for pki in (self.PKI, self.PKI2):
            subs = sub if pki is self.PKI else [[], [2, 3], [3, 2], [5, 3], [2, 10], [3, 5, 2], [3]]
            ancs = anc if pki is self.PKI else [[1], [8], [2], [1, 8], []]
            now = (0, 500, 1000) + ((1001, 400, 401, 499, 501) if T else (1001, 401))
            shows = [chain(l, i, a, n) for l in idx for i in subs for a in ancs for n in (now if len(i) < 3 else (500,))]
            shows += [chain(l, i, a, 500, j) for l in (1, 3) for i in subs[:2] for a in ancs[:3] for j in ("leaf", "empty", "sig") + (("anchors",) if a else ())]
            out.append(dict(base, consts={"Cfgs": tset([cfg(pki)]), "Makes": tset([token()]), "Shows": tset(shows), "Depth": 2}))
        out.append(dict(base, consts={"Cfgs": tset([cfg(self.PKI)]), "Makes": tset([token(), token(HEADER, CLAIMS, 5), token(HEADER, CLAIMS, 6), sign(2)]),
                                      "Shows": tset([verify(k, f) for k in range(1, 7) for f in [""] + (FORMS if k < 5 else [])] + [header(p, q) for p in POSTS for q in ("", " \r\n\t", "x", ";")]
                                                    + [header(POSTS[1], "", n) for n in (8191, 8192, 8193, 9000)]), "Depth": 2}))
        out.append(dict(base, consts={"Cfgs": tset([cfg(self.PKI[:4])]), "Makes": tset(plain + mixed), "Shows": tset([verify(), verify(2), chain(1, [], [2])]), "Depth": 4 if T else 3}))
        return out

    # ------------------------------------------------------------ generation
    def tam(self, rng, pure):
        x = rng.random()
        if x < .4:
            return []
        r = rng.choice(ENCS + PARTS) if x < .5 else sig(rng.choice(SIGS)) if x < .6 else sig("flip", rng.randrange(512)) if x < .75 else None
        if r is None:
            r = rng.choice(PUTS + DELS + TEXTS) if pure else sig("flip", rng.randrange(512))
        if r["k"] == "enc" and r["how"] == "std" and not pure:
            r = enc(1, "pad")
        return [r]

    def json(self, rng):
        def build(o):
            p = [x for x in o["v"] if rng.random() < .95]
            for _ in range(rng.choice([0, 0, 1, 2])):
                m = rng.choice(PUTS)
                if (m["s"] == 1) == (o is HEADER):
                    p = [x for x in p if x[0] != m["f"]] + [[m["f"], m["v"]]] if rng.random() < .8 else p + [[m["f"], m["v"]]]
            rng.shuffle(p)
            return {"t": "o", "v": p}
        return build(HEADER), build(CLAIMS)

    def gen(self, rng, tier, prop):
        out = []
        for _ in range(5000 if tier == "thorough" else 700):
            names = ["root", "m1", "m2", "x"]
            certs = []
            for _ in range(rng.randint(3, 7)):
                k = rng.choice([3, 4, 5, 2])
                ca = rng.random() < .6
                own = rng.random() < .3
                n = rng.choice(names)
                certs.append(cert(k if ca else rng.choice([1, 1, 2, 5, 6]), n, k if own else rng.choice([3, 4]), n if own else rng.choice(names[:3]), ca, rng.choice([-1, -1, 0, 1, 2]),
                                  rng.choice([0, 0, 100, 500]), rng.choice([1000, 1000, 600, 500])))
            # make chains likely: each certificate issued by another one of the list
            for c in certs:
                cas = [d for d in certs if d["ca"] and d is not c]
                if cas and rng.random() < .8:
                    d = rng.choice(cas)
                    c["ikey"], c["iname"] = d["key"], d["name"]
            ev = []
            for _ in range(rng.choice([1, 2, 3])):
                k = rng.choice([1, 1, 1, 2, 5, 6])
                if rng.random() < .35:
                    t = sign(min(k, 2), *self.tam(rng, False), x5u=rng.choice(["https://c.example/x;v=1", "https://c/", "", "https://c.example/c?a=b&c=\"d\"", " x "]), attest=rng.choice("ABC"),
                             orig=rng.choice(["+1", "12155551212", "é", ""] if rng.random() < .2 else ["+12155551212"]), dest=[rng.choice(["+1", "", "2", "\\\"x"]) for _ in range(rng.choice([0, 1, 1, 2, 5]))],
                             iat=rng.choice(["0", "-1", "9223372036854775807", "-9223372036854775808", "1760000000"]), origid=rng.choice([[], ["d5b8"], [""]]))
                elif rng.random() < .4:
                    h, c = self.json(rng)
                    t = token(h, c, k, *([] if rng.random() < .7 else [sig("flip", rng.randrange(512))]))
                else:
                    t = token(HEADER, CLAIMS, k, *self.tam(rng, True))
                if ev and ev[0]["op"] == "token" and rng.random() < .2:
                    t = token(HEADER, CLAIMS, k, PREV)
                ev.append(t)
                leaves = [i + 1 for i, c in enumerate(certs) if not c["ca"]] * 4 + list(range(1, len(certs) + 1))
                for _ in range(rng.choice([2, 4, 6])):
                    x = rng.random()
                    if x < .25:
                        ev.append(verify(rng.choice([k, k, k, 1, 2]) if rng.random() < .9 else rng.choice([5, 6])))
                        if rng.random() < .2 and ev[-1]["key"] < 5:
                            ev[-1]["form"] = rng.choice(FORMS)
                    elif x < .45:
                        ev.append(header(rng.choice(POSTS) if rng.random() < .5 else "".join(rng.choice([";", "info=", "<", ">", "\"", "alg=", "ppt=", "a", "=", " ", "\\"]) for _ in range(rng.randint(0, 12))), rng.choice(["", "", " "])))
                    else:
                        some = lambda n: rng.sample(range(1, len(certs) + 1), min(n, len(certs)))
                        ev.append(chain(rng.choice(leaves), some(rng.choice([0, 1, 2, 3, 5])), some(rng.choice([0, 1, 1, 2])), rng.choice([500, 500, 500, 0, 99, 100, 499, 501, 600, 601, 1000, 1001]), "" if rng.random() < .95 else rng.choice(["leaf", "sig", "empty"])))
            # a signature can be carried over only from a token that exists
            if not any(t["op"] == "sign" and (t["dest"] == [] or t["orig"] == "") for t in ev[:1]) or all(m["k"] != "prevsig" for t in ev if "tam" in t for m in t["tam"]):
                out.append({"cfg": {"kinds": KINDS, "certs": certs}, "ev": ev})
        return out

    def must_see(self, prop, tier):
        return ["token:tok", "token:err", "sign:signed", "sign:err", "header:hdr", "header:err", "verify:ok", "verify:no", "chain:ok", "chain:no"]


SUITES = [Identity()]
