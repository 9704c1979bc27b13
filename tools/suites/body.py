from lib import tset
from .base import Suite

NAMES = ["From", "To", "DateTime", "Subject", "cc", "NS", "Require", "MyFeatures.Opt", "X-a", "from"]
BADN = ["", "a b", "a:b", "a;b", "a=b", "a\\b", "a\"b", "a\tb", "a\r\nb", "n" * 128, "n" * 129]
VALS = ["MR SANDERS <im:piglet@100akerwood.com>", "the weather will be fine today", "", "2000-12-13T13:40:00-08:00", "MyFeatures <mid:MessageFeatures@id.foo.com>", "<urn:x>", "x", " x ", "a;b=c", ";a=b c", ": :", "\\", "\\n", "a\\tb",
        "say \"hi\"", "a\tb", "a\r\nb", "\n", "\r", "a\fb", "\\u0041", "a: b", "Content-type: text/plain", "message/cpim", "v" * 1024, "v" * 1025, "\"" * 3, "x\n\nFrom: evil", "-"]
RAW = ["a\\", "a\\x", "\\u00", "\\u004g", "\\u0041\\u0009", "\\\\\\\"", "\\u000A", "x\\ny"]
PN = ["lang", "Lang", "x", "a:b", "p" * 64]
BADPN = ["", "a b", "a;b", "a=b", "a\\b", "a\"b", "p" * 65, "a\tb"]
PV = ["fr", "", "a=b", "a:b", "x/y", "v" * 256]
BADPV = ["a b", "a;b", "a\\b", "a\"b", "v" * 257, "a\r\nb"]
CTS = ["text/plain", "text/xml; charset=utf-8", "Message/CPIM", "x", " x ", "c" * 256]
BADCT = ["", "a\tb", "a\r\nb", "c" * 257]
CH = ["Content-ID", "Content-Disposition", "X", "content-id"]
CV = ["<1234567890@foo.com>", "", " a ", "a:b;c=\"d\"", "v" * 1024]
BADCV = ["v" * 1025, "a\r\nb", "a\tb"]
BODIES = ["", "Here is the text", "\r\n\r\n", "a\r\nb\r\n", "\n", "\r\n", "From: x\r\n\r\ny", " lead", "Content-type: a\n\nb", "b" * 3000]
CLASSES = ["voice", "fax", "pager", "multimedia", "text", "none"]
NUMS = ["0", "0", "1", "2", "8", "100", "2147483647", "2147483648", "4294967294", "4294967295"]
FIELDS = ["To", "From", "Subject", "Date", "Priority", "Message-ID", "Message-Context"]
FV = ["alice@example.com", "", " x ", "Sun, 06 Nov 1994 08:49:37 GMT", "a: b", "urgent", "v" * 1024, "Messages-Waiting: no", "é"]
BADFV = ["v" * 1025, "a\r\nb", "a\tb", "a\nVoice-Message: 9/9"]
ACC = ["sip:alice@vmail.example.com", "", " x ", "a" * 512, "a:b"]
BADACC = ["a" * 513, "a\r\nb", "a\tb"]
HN = ["From", "To", "Via", "X-Y", "subject", "Warning"]
BADHN = ["", "a b", "a:b", "x" * 128, "x" * 129, "a\r\nb"]
HV = ["Alice <sip:alice@a>", "1", "x y", "a:b", " z ", ""]
BADHV = ["a\r\nb", "a\nb"]


def esc(v):
    for a, b in (("\\", "\\\\"), ("\"", "\\\""), ("\t", "\\t"), ("\n", "\\n"), ("\r", "\\r"), ("\f", "\\u000c")):
        v = v.replace(a, b)
    return v


def some(rng, q):
    """one of q, seldom a long one"""
    x = rng.choice(q)
    return x if len(x) < 130 or rng.random() < 0.05 else some(rng, q)


class Body(Suite):
    name = "body"
    module = "Body"
    props = ("B01",)

    def mc(self, tier, prop):
        base = dict(module="M_Body", view="View", emit=True, inv=["TypeOK", "Readable", "Totals"])
        SH = [{"op": "show"}, {"op": "again"}]
        c = lambda acts, d: dict(base, consts={"Acts": tset(SH + acts), "Depth": d})
        new = lambda ct="text/plain", b="": {"op": "cnew", "ct": ct, "b": b}
        hd = lambda n, v, ps=(), set=False, via="": {"op": "chdr", "n": n, "v": v, "ps": [{"n": a, "v": b} for a, b in ps], "set": set, "via": via}
        ch = lambda n, v: {"op": "cch", "n": n, "v": v, "via": ""}
        rd = lambda k, *xs: [{"op": "read", "k": k, "x": x} for x in xs]
        C = "Content-type: Message/CPIM\r\n\r\n"
        N = new("text/plain", "hi")
        hn, hv = [N] + [hd(n, "v") for n in NAMES + BADN], [N] + [hd("Subject", v) for v in VALS]
        hp = [N] + [hd("X", "v", [(n, "1")]) for n in PN + BADPN] + [hd("X", "v", [("p", v)]) for v in PV + BADPV]
        hc = [N] + [ch(n, "1") for n in CH + BADN + ["Content-Type", "content-type"]] + [ch("X", v) for v in CV + BADCV]
        two = [new(ct, "x") for ct in CTS + BADCT] + [new("x", b) for b in BODIES] + [{"op": "body", "b": b, "via": ""} for b in BODIES]
        mix = [new(), hd("To", "a"), hd("To", "b"), hd("To", "c", set=True), hd("to", "d", [("x", "1"), ("y", "2"), ("x", "3")]), hd("From", "a", set=True, via="with"), ch("A", "1"), ch("A", "2"), {"op": "body", "b": "\r\n", "via": ""}]
        txt = rd("cpim", *[C + "From: a\r\nTo: b\r\n\r\nContent-type: text/xml\r\nContent-ID: <1>\r\n\r\nbody", C + "\r\n\r\n", C + "\r\n", C, "", "Content-type: text/plain\r\n\r\n\r\n\r\n", "content-type: message/cpim\n\nFrom: a\n\nContent-Type: t\n\nb\r\n\r\nc",
                           C + "From a\r\n\r\n\r\n", C + ": a\r\n\r\n\r\n", C + "Subject:;lang=fr beau temps\r\n\r\n\r\n", C + "Subject;lang=fr: beau\r\n\r\n\r\n", C + "Subject:;lang=fr\r\n\r\n\r\n", C + "X:;a;b=1;c=d v\r\n\r\n\r\n", C + "X:;a=1;a=2 v\r\nX: w\r\n\r\n\r\n",
                           C + "To: a\r\n\r\nContent-type:\r\n\r\nx", C + "To: a\r\n\r\nno colon\r\n\r\nx", C + "\r\nContent-type: a\r\n\r\n", C + "\r\nX: 1\r\nX: 2\r\n\r\n\r\n\r\n", "X: y\r\n" + C + "\r\n\r\n", C + "A:  v \r\n\r\n\r\n", C + "From: a\r\n\r\nX: 1"] + [C + "A: " + v + "\r\n\r\n\r\n" for v in RAW])
        M = "Messages-Waiting: "
        mw = [{"op": "mnew", "w": w} for w in ("yes", "no")] + [{"op": "macc", "x": x} for x in ACC + BADACC] + [{"op": "mcls", "c": x, "n": ["1", "2", "0", "0"]} for x in CLASSES] + [{"op": "mcls", "c": "voice", "n": n} for n in (["4294967295", "1", "0", "0"], ["0", "0", "0", "1"], ["0", "0", "4294967295", "4294967295"])] \
            + [{"op": "mhdr", "f": [[] if i != j else [v] for i in range(7)]} for j in range(7) for v in ("x", "a\r\nb")] + [{"op": "mhdr", "f": [["a"]] * 7}, {"op": "mhdr", "f": [[]] * 7}]
        mv = [{"op": "mnew", "w": "yes"}] + [{"op": "mhdr", "f": [[v]] + [[]] * 6} for v in FV + BADFV]
        mr = rd("mwi", *[M + "yes\r\nMessage-Account: sip:a@b\r\nVoice-Message: 2/8 (0/2)\r\n", M + "no", M + "YES\nfax-message: 1/1", M + "maybe", M, "", "Voice-Message: 1/2\r\n", M + "yes\r\nVoice-Message: 1\r\nFax-Message: 1/x\r\n", M + "yes\r\nVoice-Message: 2/8(0/2)\r\n", M + "yes\r\nVoice-Message: 2 / 8 ( 1 / 2 )\r\n",
                         M + "yes\r\nVoice-Message: 4294967295/1 (4294967295/4294967295)\r\nFax-Message: 1/4294967295\r\n", M + "yes\r\nVoice-Message: 4294967296/1\r\n", M + "yes\r\nVoice-Message: 1/2\r\nVOICE-MESSAGE: 3/4\r\n", M + "yes\r\n\r\nTo: a\r\nFrom: b\r\n\r\nTo: c\r\nSubject: d\r\n", M + "yes\r\n\r\n\r\n\r\nTo: a\r\nTo: b\r\n",
                         M + "yes\r\nTo: a\r\nFrom: b\r\n\r\nMessage-Account: x\r\nPriority: urgent\r\nX-Unknown: 5\r\nno colon\r\n", "\r\n" + M + "no\r\n", "messages-waiting:yes\r\nMessage-ID: 1\r\nDate: d\r\nMessage-Context: c", M + "yes\r\nVoice-Message: -1/2\r\nText-Message: 1/2/3\r\nNone-Message: 1/2 (3)\r\nPager-Message: 1/2 (3/4\r\n",
                         M + "yes\r\nTo: " + "v" * 1024, M + "yes\r\nTo: " + "v" * 1025, M + "yes\r\nMessage-Account: " + "v" * 513, M + "yes" + "\r\n\r\nTo: a" * 50, M + "yes" + "\r\n\r\nTo: a" * 51, M + "yes\r\n" + "\r\n" * 600, "Messages-Waiting : yes", M + "no\r\n" + M + "yes\r\nMultimedia-Message:0/0"])
        st = lambda k, code, reason="OK", hs=(), b="", m="INVITE", uri="sip:a@b": {"op": "fnew", "kind": k, "code": code, "reason": reason, "m": m, "uri": uri, "hs": [{"n": n, "v": v} for n, v in hs], "b": b}
        T = ("Content-Type", "text/plain")
        L = lambda n: ("Content-Length", n)
        fr = [st(k, n) for k in ("status", "response", "full") for n in ("99", "100", "200", "699", "700", "65535")] + [st("status", "200", r) for r in ("", "x y", "r" * 256, "r" * 257, "a\r\nb", "a\tb")] + [st("empty", ""), st("headers", "", hs=[("From", "a"), ("Via", "b")]), st("request", "", m="NOTIFY", uri="sips:bob@b.example:5061;x=1?h=1"), st("request", "", m="FOO")] \
            + [st(k, "200", hs=hs, b=b) for k in ("full", "status", "request") for hs, b in (([T, L("2")], "hi"), ([T, L("3")], "hi"), ([L("2")], "hi"), ([T], "hi"), ([], "hi"), ([("content-type", "x"), ("CONTENT-LENGTH", " 02 ")], "hi"), ([T, L("2"), L("3")], "hi"), ([L("7")], ""), ([T, L("65536")], "b" * 65536), ([T, L("65537")], "b" * 65537))]
        fh = [st("empty", ""), st("status", "200", hs=[T, L("2")], b="hi")] + [{"op": "fhdr", "n": n, "v": "1", "via": ""} for n in HN + BADHN] + [{"op": "fhdr", "n": "X", "v": v, "via": ""} for v in HV + BADHV] + [{"op": "body", "b": "hi", "via": ""}]
        th = tier == "thorough"
        return [c(hn, 3), c(hv, 3), c(hp, 3), c(hc, 3), c(two, 3), c(mix, 6 if th else 5), c(txt, 2), c(mw, 4 if th else 3), c(mv, 3), c(mr, 2), c(fr, 2), c(fh, 3)]

    # ------------------------------------------------------------ generation
    def chdr(self, rng, bad):
        pick = lambda good, wrong: some(rng, wrong if rng.random() < bad else good)
        via = rng.choice(["with", ""])
        n, v, st = pick(NAMES, BADN), some(rng, VALS[:-4] if rng.random() > bad else VALS), rng.random() < 0.3
        if rng.random() < 0.3:
            v = "".join(rng.choice("ab :;=\\\"\t\r\n\fu0<>,\x7e") for _ in range(rng.randrange(8)))
        if via == "with" and n in ("From", "DateTime"):
            st = True
        ps = [] if st else [{"n": pick(PN, BADPN), "v": pick(PV, BADPV)} for _ in range(rng.choice([0, 0, 1, 2]))]
        if not st and rng.random() < 0.03:
            ps = [{"n": "p%d" % i, "v": "1"} for i in range(rng.choice([10, 11]))]
        return {"op": "chdr", "n": n, "v": v, "ps": ps, "set": st, "via": via}

    def cpim(self, rng):
        bad = rng.choice([0, 0, 0.1, 0.3])
        pick = lambda good, wrong: some(rng, wrong if rng.random() < bad else good)
        if rng.random() < 0.4:
            ev = [{"op": "cnew", "ct": pick(CTS, BADCT), "b": some(rng, BODIES)}]
        else:
            ev = [{"op": "read", "k": "cpim", "x": self.text(rng, bad)}]
        for _ in range(rng.choice([0, 1, 3, 6])):
            x = rng.random()
            ev.append(self.chdr(rng, bad) if x < 0.55 else {"op": "cch", "n": pick(CH, BADN + ["Content-Type", "content-type"]), "v": pick(CV, BADCV), "via": rng.choice(["with", ""])} if x < 0.75 else {"op": "body", "b": some(rng, BODIES), "via": ""} if x < 0.85 else {"op": rng.choice(["show", "again"])})
        if rng.random() < 0.02:
            n = rng.choice([20, 21, 50, 51])
            ev += [{"op": "cch", "n": "X-%d" % i, "v": "1", "via": ""} for i in range(n)] if n < 30 else [{"op": "chdr", "n": "X-%d" % (i % 7), "v": "1", "ps": [], "set": False, "via": ""} for i in range(n)]
        return ev + [{"op": "show"}, {"op": "again"}]

    def text(self, rng, bad):
        nl = rng.choice(["\r\n", "\r\n", "\n"])
        sp = lambda: rng.choice(["", " ", " ", "  "])
        par = lambda: some(rng, PN) + "=" + some(rng, PV) if rng.random() > bad else rng.choice(["flag", "=x", "a b=c", "a=b\"", ""])
        hs = []
        for _ in range(rng.choice([0, 1, 2, 4] + [50, 51] * (rng.random() < 0.05))):
            n = rng.choice(BADN[:7] + BADN[9:] if rng.random() < bad else NAMES)
            v = rng.choice(RAW) if rng.random() < max(bad, 0.1) else esc(some(rng, VALS))
            if rng.random() < 0.5 and v[:1] == ";":
                v = " " + v
            ps = "".join(";" + par() for _ in range(rng.choice([0, 0, 0, 1, 2])))
            style = rng.random()
            hs.append(n + ":" + ps + " " + v if ps and style < 0.7 else n + ps + ":" + sp() + v)
        ch = [rng.choice(["Content-type", "Content-Type", "CONTENT-TYPE"]) + ":" + sp() + some(rng, CTS + BADCT[:1] * (rng.random() < bad))] * (rng.random() < 0.8) + [(rng.choice(CH) if rng.random() > bad else rng.choice(BADN[:7])).replace("\t", " ") + ":" + sp() + rng.choice(CV[:4]) for _ in range(rng.choice([0, 0, 1, 2] + [20, 21] * (rng.random() < 0.05)))]
        if rng.random() < bad:
            ch.append(rng.choice(["junk", "", " : x"]))
        rng.shuffle(ch)
        x = rng.choice(["Content-type: Message/CPIM", "content-type:message/cpim", "Content-Type: MESSAGE/CPIM; x=1"]) + nl + nl + "".join(h + nl for h in hs) + nl + "".join(h + nl for h in ch) + nl + some(rng, BODIES)
        if rng.random() < bad / 2:
            i = rng.randrange(len(x))
            x = x[:i] + rng.choice(["", ":", ";", " ", "\\", nl]) + x[i + rng.choice([0, 1]):]
        return x

    def mwi(self, rng):
        bad = rng.choice([0, 0, 0.1, 0.3])
        pick = lambda good, wrong: some(rng, wrong if rng.random() < bad else good)
        num = lambda: rng.choice(NUMS) if rng.random() < 0.7 else str(rng.randrange(1000))
        if rng.random() < 0.4:
            ev = [{"op": "mnew", "w": rng.choice(["yes", "no"])}]
        else:
            sp = lambda: rng.choice(["", "", " "])
            q = ["Messages-Waiting" + sp() + ":" + sp() + pick(["yes", "no", "YES", "No"], ["maybe", "", "yes no", "1"])]
            if rng.random() < 0.5:
                q.append("Message-Account:" + sp() + pick(ACC, BADACC[:1]))
            for _ in range(rng.choice([0, 1, 2, 4])):
                p = sp().join([num(), "/", num()])
                u = sp() + "(" + sp().join([num(), "/", num()]) + sp() + ")" if rng.random() < 0.5 else ""
                if rng.random() < bad:
                    p = rng.choice(["1", "1/", "/1", "-1/2", "4294967296/1", "1/2/3", "a/b", "", "1 2/3", "1/2 3"])
                if rng.random() < bad:
                    u = rng.choice(["(", "()", "(1)", "(1/2", "1/2)", "(1/x)", "(1/2) x", "(1/2)(3/4)"])
                n = rng.choice(CLASSES) + "-message"
                q.append(rng.choice([n, n.title(), n.upper()]) + ":" + sp() + p + u)
            for _ in range(rng.choice([0, 0, 1, 2, 3] + [50, 51] * (rng.random() < 0.01))):
                q += [""] + [rng.choice([f, f.lower(), f.upper()]) + ":" + sp() + pick(FV[:-1], BADFV[:1]) for f in rng.sample(FIELDS, rng.choice([0, 1, 2, 7]))]
            if rng.random() < bad:
                q.insert(rng.randrange(len(q)), rng.choice(["junk", "", "X-Y: z", "Voice: 1/2", "voice-message 1/2", "Messages-Waiting: no"]))
            if rng.random() < 0.2:
                rng.shuffle(q)
            ev = [{"op": "read", "k": "mwi", "x": rng.choice(["\r\n", "\n"]).join(q) + rng.choice(["", "\r\n"])}]
        for _ in range(rng.choice([0, 1, 3, 6] + [50, 51] * (rng.random() < 0.01))):
            x = rng.random()
            ev.append({"op": "mcls", "c": rng.choice(CLASSES), "n": [num() for _ in range(4)]} if x < 0.4 else {"op": "macc", "x": pick(ACC, BADACC)} if x < 0.55
                      else {"op": "mhdr", "f": [[pick(FV[:-1], BADFV)] if rng.random() < 0.4 else [] for _ in range(7)]} if x < 0.9 else {"op": rng.choice(["show", "again"])})
        return ev + [{"op": "show"}, {"op": "again"}]

    def frag(self, rng):
        bad = rng.choice([0, 0, 0.1, 0.3])
        pick = lambda good, wrong: some(rng, wrong if rng.random() < bad else good)
        k = rng.choice(["empty", "headers", "status", "response", "full", "request"])
        b = rng.choice(["", "", "hi", "v=0\r\n", "\r\n", "x" * 100])
        hs = [{"n": rng.choice(HN), "v": rng.choice(HV)} for _ in range(rng.choice([0, 1, 2, 3]))]
        n = str(len(b)) if rng.random() > bad else rng.choice(["", "0", "-1", "x", str(len(b) + 1), "99999999999", " " + str(len(b))])
        mime = [{"n": rng.choice(["Content-Type", "content-type"]), "v": "text/plain"}] * (rng.random() > bad) + [{"n": rng.choice(["Content-Length", "CONTENT-LENGTH"]), "v": n}] * (rng.random() > bad)
        if rng.random() < bad:
            mime += mime[:1]
        hs += mime
        rng.shuffle(hs)
        if k == "headers":
            late, b1 = True, ""
        else:
            late = rng.random() < 0.4
            b1 = "" if late else b
        ev = [{"op": "fnew", "kind": k, "code": pick(["100", "180", "200", "486", "699"], ["99", "0", "700", "1000", "65535"]), "reason": pick(["OK", "", "Busy Here", "x: y"], ["r" * 257, "a\r\nb", "a\tb"]), "m": rng.choice(["INVITE", "NOTIFY", "FOO"]),
               "uri": rng.choice(["sip:a@b", "sips:bob@b.example:5061;x=1", "tel:+1-2"]), "hs": hs if not late or k == "headers" else [], "b": b1}]
        if late and k != "headers":
            ev += [{"op": "fhdr", "n": h["n"], "v": h["v"], "via": rng.choice(["with", ""])} for h in hs]
        if late:
            ev.append({"op": "body", "b": b, "via": rng.choice(["with", ""])})
        for _ in range(rng.choice([0, 0, 1, 2])):
            ev.append({"op": "fhdr", "n": pick(HN, BADHN), "v": pick(HV, BADHV), "via": rng.choice(["with", ""])})
        return ev + [{"op": "show"}, {"op": "again"}]

    def gen(self, rng, tier, prop):
        out = []
        for _ in range(20000 if tier == "thorough" else 3000):
            out.append({"cfg": [], "ev": rng.choice([self.cpim, self.cpim, self.mwi, self.mwi, self.frag])(rng)})
        return out

    def must_see(self, prop, tier):
        return ["cnew:ok", "cnew:err", "chdr:ok", "chdr:err", "cch:ok", "cch:err", "read:ok", "read:err", "macc:err", "mcls:ok", "mhdr:ok", "mhdr:err", "fnew:ok", "fnew:err", "fhdr:err", "body:err", "again:cpim", "again:mwi", "again:frag"]


SUITES = [Body()]
