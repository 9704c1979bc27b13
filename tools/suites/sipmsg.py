from lib import tset
from .base import Suite

VIA = "Via: SIP/2.0/UDP h;branch=z9hG4bKa"
REQ = ["INVITE sip:b@h SIP/2.0", "OPTIONS tel:+15 SIP/2.0"]
RES = ["SIP/2.0 200 OK", "SIP/2.0 486 Busy Here"]
HDRS = ["Content-Length: 3", "l: 4", "CSeq: 1 INVITE", "t: <sip:b@h>", "Max-Forwards: 70", "X-A: 1", "Content-Length: abc", "Call-ID: a", "i: b"]
STARTS = [
    "INVITE sip:b@h SIP/2.0", "invite sip:b@h sip/2.0", "INVITE  sip:b@h \t SIP/2.0", " ACK sip:b@h SIP/2.0 ", "FOO!1 sips:h;lr?a=1 SIP/2.0", "x-y sip:h SIP/2.0",
    "INVITE tel:+1-5 SIP/2.0", "OPTIONS http://h/ SIP/2.0", "INVITE sip:b@h SIP/3.0", "INVITE sip:b@h", "INVITE sip:b@h SIP/2.0 x", "INVITE sip: SIP/2.0", "INVITE <sip:b@h> SIP/2.0",
    "IN/VITE sip:b@h SIP/2.0", "A#B sip:b@h SIP/2.0", "A$B sip:h SIP/2.0", "INVITE\tsip:b@h\tSIP/2.0", "INVITE sip:b@h\tSIP/2.0\t", "INVITE sip:b\u00a0@h SIP/2.0", "\u00a0INVITE sip:b@h SIP/2.0",
    "INVITE sip:b@h SIP/2.0\u00a0", "INVITE sip:b%20@h SIP/2.0", "INVITE sip:é@h SIP/2.0", "INVITÉ sip:b@h SIP/2.0", "", " ", "SIP/2.0 200 OK", "Via: x",
    "INVITE sip:b@h SIP/2.0\r", "INVITE sip:b@h\nSIP/2.0", "INVITE\rsip:b@h SIP/2.0", "M" * 32 + " sip:h SIP/2.0", "M" * 33 + " sip:h SIP/2.0",
]
RSTARTS = [
    "SIP/2.0 200 OK", "sip/2.0 200 OK", "SIP/2.0  180   Ringing  loud ", "SIP/2.0 200", "SIP/2.0 200 ", "SIP/2.0\t404\tNo", "SIP/2.0 99 x", "SIP/2.0 100 x", "SIP/2.0 699 x", "SIP/2.0 700 x",
    "SIP/2.0 0200 x", "SIP/2.0 65736 x", "SIP/2.0 +200 x", "SIP/2.0 200OK", "SIP/2.0 2x0 OK", "SIP/3.0 200 OK", "SIP/2.0200 OK", "SIP/2.0", "SIP/2.0 ", "", " SIP/2.0 200 OK ",
    "SIP/2.0 200 é", "SIP/2.0 200 a\tb", "SIP/2.0 200 a\rb", "SIP/2.0 200 a\nb", "SIP/2.0 200 \u00a0OK", "SIP/2.0 200 OK\u00a0", "SIP/2.0 503 " + "r" * 256, "SIP/2.0 503 " + "r" * 257,
    "INVITE sip:h SIP/2.0", "SIP/2.0 -200 x", "SIP/2.0 200\u00a0OK", "HTTP/1.1 200 OK", "SIP/2.0 200 OK\r", "SIP/2.0\u00a0200 OK",
]
NAMES = ["X-A", "x-a", "Via", "v", "CONTACT", "m", "Call-ID", "i", "CSeq", "From", "f", "To", "t", "Max-Forwards", "max-forwards", "Content-Length", "l", "L", "Subject", "s", "k", "Event", "o",
         "e", "Content-Type", "c", "r", "b", "d", "x", "a", "u", "Route", "Record-Route", "X!%'*+.^_`|~", "y"]
BADNAMES = ["", "a b", "a:b", "a\tb", "é", "a(b", "a/b", "a\r", "a\"", "n" * 128, "n" * 129, "a;b", "\u00a0x", "a@b"]
VALUES = ["1", "", "a", " a ", "a b", "\ta", "é", "<sip:b@h>;tag=1", "a:b:c", "a\tb", "70", "x,y", "\u00a0", "\u00a0v\u00a0"]
BADVALUES = ["a\rb", "a\nb", "\r\n", "a\r\nX-B: 1"] * 8 + ["v" * 8192, "v" * 8193]
LENGTHS = ["0", "1", "2", "3", "4", "5", "10", "00003", "+3", "-1", "3 ", "3x", "0x3", "3.0", "", "67108864", "67108865", "4294967296", "18446744073709551615", "18446744073709551616",
           "18446744073709551619", "99999999999999999999999", "3, 3", "\u00a03", "٣"]
CSEQS = ["1 INVITE", "1 invite", "2147483647 INVITE", "2147483648 INVITE", "0 INVITE", "00 INVITE", "0007 INVITE", "4294967297 INVITE", "+1 INVITE", "1", "INVITE", "INVITE 1", "1 INVITE x", "1  INVITE",
         "1\tINVITE", "1 ACK", "", "1 OPTIONS", "99999999999999999999 INVITE", "18446744073709551617 INVITE", "1 FOO!1"]
VIAS = ["SIP/2.0/UDP h;branch=z9hG4bKa", "SIP/2.0/UDP h", "SIP/2.0/UDP h;branch=z9hG4bK", "SIP/2.0/UDP h;branch=abc", "SIP/2.0/UDP h;BRANCH=abc", "SIP/2.0/UDP h;Branch=z9hG4bKb",
        "SIP/2.0/UDP h; branch = z9hG4bKc", "SIP/2.0/UDP h;branch = bad", "SIP/2.0/UDP h;branch=z9hG4bKa, SIP/2.0/UDP i;branch=z9hG4bKb", "SIP/2.0/UDP h, SIP/2.0/UDP i;branch=bad",
        "SIP/2.0/UDP h;x=\",\";branch=bad", "SIP/2.0/UDP h;x=\";branch=bad\"", "SIP/2.0/UDP h;branch=z9hG4bKa;branch=bad", "SIP/2.0/UDP h;branch", "SIP/2.0/UDP h;branch=",
        "SIP/2.0/UDP h;branch=Z9HG4BKa", "SIP/2.0/UDP h;branch=z9hG4bK" + "b" * 249, "SIP/2.0/UDP h;branch=z9hG4bK" + "b" * 250, "SIP/2.0/UDP h;branch=z9hG4bK(a)", "SIP/2.0/UDP h;branch=z9hG4bKé",
        "x;rport;branch=z9hG4bK.-!%*_+`'~", "", ";", "SIP/2.0/UDP h;branch=z9hG4bKa b", "SIP/2.0/UDP h;xbranch=bad", "SIP/2.0/UDP h;x=\"\\\";branch=bad;y=\"z\""]
MAXF = ["70", "0", "1", "255", "256", "00070", "65536", "65791", "-1", "+5", "x", "", " 9 ", "1 0", "99999999999999999999", "0000000000000000000000000001", "000"]
LINES = ["", " folded", "\tfolded", " X-B: 1", "\tX-B: 1", "\u00a0X-B: 1", "nocolon", ":v", "a b: c", "X-A:", "X-A:1", "X-A : 1", "X-A\t:\t1 ", "X(A): 1", "é: 1", "X-A: é", "X-A: a\rb", "X-A: a\nb", "X-A\r: 1", "\u00a0X-A: 1",
         "X-A\u00a0: 1", "X-A: \u00a01", "X-A: 1\r", "X:" + "v" * 8192, "X: " + "v" * 8193, "n" * 128 + ": 1", "n" * 129 + ": 1"]
BODIES = ["", "v=0", "a\r\nb", "a\r\n\r\nb", "\r\n", "é", "abcd", "x" * 10, "\n", "\u00ff\u0080"]


def parse(kind, mode, lines, lim=0, raw8=False):
    return {"op": "parse", "kind": kind, "mode": mode, "lim": lim, "lines": lines, "raw8": raw8}


def h(op, n="", v=""):
    return {"op": op, "n": n, "v": v}


def split(body):
    return ["", *body.split("\r\n")]


class SipMsg(Suite):
    name = "sipmsg"
    module = "SipMsg"
    props = ("M01", "M02", "M03")

    def owners(self, m):
        op = m["trace"]["ev"][m["i"]]["op"]
        if op == "parse":
            return ("M01", "M02")
        if op in ("build", "write", "body", "uri", "huge"):
            return ("M02",)
        if op == "push":
            return ("M02", "M03")
        if op in ("set", "replace", "remove", "removeat", "maxf", "get"):
            return ("M03",)
        return self.props

    def mc(self, tier, prop):
        T = tier == "thorough"
        st = lambda k, xs: [{"k": k, "x": x} for x in xs]
        via = [VIA]
        base = dict(module="M_SipMsg", inv=["TypeOK", "OneReading", "Faithful"], prop=["Local", "Hops"], view="View", emit=True)
        seqs = lambda bs: [split(b) for b in bs]

        def cfg(starts, lines, n, bodies, fixed=(), modes=("plain", "strict"), acts=(), depth=1):
            return dict(base, consts={"Starts": tset(starts), "HeaderLines": tset(lines), "MaxLines": n, "Bodies": tset(seqs(bodies)), "Fixed": "<<%s>>" % ", ".join('"%s"' % f for f in fixed),
                                      "Modes": tset(list(modes)), "Acts": tset(list(acts)), "Depth": depth})

        hdracts = [h("push", "X-A", "2"), h("push", "x-a", "3"), h("set", "X-A", "4"), h("set", "Y", "5"), h("replace", "x-A", "6"), h("remove", "X-a"), h("removeat", "", "1"), h("removeat", "", "2"),
                   h("maxf"), h("get", "x-a"), h("push", "MAX-FORWARDS", "1"), h("write")]
        out = []
        if prop in ("M01", "M02"):
            out += [
                cfg(st("req", REQ[:1]) + st("res", RES[:1]), HDRS, 3 if T else 2, BODIES[:4] + ["abcd"]),
                cfg(st("req", STARTS) + st("res", RSTARTS), [], 0, ["", "abc"], acts=[h("write")], depth=2),
                cfg(st("req", REQ[:1]) + st("res", RES[:1]), ["Content-Length: " + l for l in LENGTHS if len(l) < 25 and "٣" not in l], 2 if T else 1, ["", "abc", "abcd"], acts=[h("write")], depth=2),
                cfg(st("req", REQ[:1] + ["FOO!1 sip:h SIP/2.0"]) + st("res", RES[:1]), ["CSeq: " + c for c in CSEQS], 1, [""]),
                cfg(st("req", REQ[:1]) + st("res", RES[:1]), ["Via: " + v for v in VIAS], 2 if T else 1, [""]),
                cfg(st("req", REQ[:1]), [l for l in LINES if l], 2, [""], modes=("plain",), acts=[h("write")], depth=2),
            ]
        if prop == "M03":
            out += [
                cfg(st("req", REQ[:1]), ["X-A: 1"], 2, [""], modes=("plain",), acts=hdracts[:-1], depth=6 if T else 5),
                cfg(st("req", REQ[:1]), ["Max-Forwards: " + m for m in MAXF], 1, [""], modes=("plain",), acts=[h("maxf"), h("set", "Max-Forwards", "2"), h("get", "max-forwards"), h("remove", "Max-Forwards")], depth=4),
            ]
        if prop == "M02":
            out += [cfg(st("req", REQ[:1]) + st("res", RES[:1]), ["X-A: 1", "l: 0"], 2, [""], modes=("plain",),
                        acts=[h("push", "X-A", " 2 "), h("set", "Content-Length", "9"), h("push", "i", "3"), h("body", "", "abc\r\n\r\nd"), h("uri", "", "sips:h"), h("remove", "X-a"), h("write")],
                        depth=5 if T else 4)]
        return out

    # ------------------------------------------------------------ generation
    def line(self, rng):
        pick = lambda g, b, p=0.04: rng.choice(b) if rng.random() < p else rng.choice(g)
        x = rng.random()
        if x < 0.25:
            return rng.choice(["Content-Length", "content-length", "l", "L"]) + rng.choice([": ", ":", " :  "]) + rng.choice(LENGTHS[:7] if rng.random() < 0.7 else LENGTHS)
        if x < 0.4:
            return rng.choice(["CSeq", "cseq"]) + ": " + rng.choice(CSEQS[:3] if rng.random() < 0.7 else CSEQS)
        if x < 0.55:
            return rng.choice(["Via", "v", "VIA"]) + ": " + rng.choice(VIAS[:2] if rng.random() < 0.7 else VIAS)
        if x < 0.65:
            return rng.choice(["Max-Forwards", "max-forwards"]) + ": " + rng.choice(MAXF)
        if x < 0.68:
            return rng.choice(LINES)
        return pick(NAMES, BADNAMES) + rng.choice([": ", ":", " : "]) + pick(VALUES, BADVALUES[:3])

    def datagram(self, rng):
        kind = rng.choice(["req", "req", "res"])
        odd = rng.random() < 0.2
        start = rng.choice((STARTS if kind == "req" else RSTARTS) if odd else (REQ if kind == "req" else RES))
        lines = [self.line(rng) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9]))]
        x = rng.random()
        body = rng.choice(BODIES) if rng.random() < 0.8 else rng.choice(BODIES) + "".join(rng.choice(["a", "\r\n", "\r", "\n", "é"]) for _ in range(rng.randint(0, 6)))
        tail = [] if x < 0.03 else [""] if x < 0.06 else split(body)
        all = [start, *lines, *tail]
        if rng.random() < 0.3 and len(tail) > 1:              # right length
            all = [start, *[x for x in lines if x[:1].lower() not in "cl"], "Content-Length: %d" % len(body.encode("latin-1")), *tail]
        if rng.random() < 0.06 and all:
            k = rng.randrange(len(all))
            c = rng.choice(" \t:;,\r\n\"é\u00a0aA0")
            j = rng.randint(0, len(all[k]))
            all[k] = rng.choice([all[k][:j] + c + all[k][j:], all[k][:j] + all[k][j + 1:]])
        mode = rng.choice(["plain", "plain", "strict"])
        size = sum(map(len, all)) + 2 * (len(all) - 1)
        lim = 0
        raw8 = rng.random() < 0.1 and all == [x.encode("latin-1", "ignore").decode("latin-1") for x in all] and not any("Ã" in x for x in all)
        if kind == "req" and rng.random() < 0.1 and "".join(all).isascii():
            mode = rng.choice(["limit", "limitstrict"])
            lim = max(0, size + rng.choice([-1, 0, 1, 100, -size]))
        if any("\u00a0" in x for x in all):
            raw8 = False
        return parse(kind, mode, all, lim, raw8)

    def ok(self, a):
        """The datagram falls into the given pieces when cut at CRLFs, and its body is bytes."""
        all = "\r\n".join(a["lines"])
        if all.split("\r\n") != a["lines"]:
            return False
        try:
            (all if a["raw8"] else all.partition("\r\n\r\n")[2]).encode("latin-1")
        except UnicodeEncodeError:
            return False
        return True

    def change(self, rng):
        pick = lambda g, b, p=0.1: rng.choice(b) if rng.random() < p else rng.choice(g)
        op = rng.choice(["push", "push", "set", "set", "replace", "remove", "removeat", "maxf", "get", "get", "write", "write", "body", "uri"])
        if op in ("push", "set"):
            n = pick(NAMES, BADNAMES)
            v = pick(VALUES, BADVALUES)
            if n.lower() in ("via", "v") and rng.random() < 0.6:
                v = rng.choice(VIAS)
            if n.lower() == "cseq" and rng.random() < 0.6:
                v = rng.choice(CSEQS)
            if n.lower() == "max-forwards":
                v = rng.choice(MAXF)
            return h(op, n, v)
        if op == "replace":
            return h(op, rng.choice(NAMES), pick(VALUES, BADVALUES))
        if op in ("remove", "get"):
            return h(op, pick(NAMES, BADNAMES))
        if op == "removeat":
            return h(op, "", str(rng.randint(1, 6)))
        if op == "body":
            return h(op, "", rng.choice(BODIES))
        if op == "uri":
            return h(op, "", rng.choice(["sips:c@d", "tel:+1-5", "http://x/", "sip:a b", "", "sip:b\u00a0@h", "tel:+1 5", "sip:é@h"]))
        return h(op)

    def start(self, rng, prop):
        while prop != "M03" or rng.random() < 0.5:
            if rng.random() < 0.2:
                break
            a = self.datagram(rng)
            if self.ok(a):
                return a
        return {"op": "build", "kind": rng.choice(["req", "res"]), "method": rng.choice(["INVITE", "invite", "Foo", "a!%'*+-.^_`|~", "", "A B", "A\r\nB", "É", "M" * 32, "M" * 33, "A/B"]),
                "uri": rng.choice(["sip:b@h", "tel:+15", "sips:h;lr", "urn:x", "sip:", "a b:c"]), "code": rng.choice([0, 99, 100, 200, 404, 699, 700, 65535]),
                "reason": rng.choice(["OK", "", " ", " two  words ", "a\rb", "a\r\nVia: x", "é", "\u00a0x", "r" * 256, "r" * 257]), "body": rng.choice(BODIES)}

    def gen(self, rng, tier, prop):
        out = []
        n = 12000 if tier == "thorough" else 2500
        for _ in range(n):
            ev = []
            for _ in range(3):
                ev.append(self.start(rng, prop))
                k = rng.choice([0, 1, 2, 3, 5]) if prop != "M03" else rng.choice([3, 6, 12])
                ev += [self.change(rng) for _ in range(k)]
            out.append({"cfg": [], "ev": ev})
        # limits
        ev = [{"op": "build", "kind": "req", "method": "INVITE", "uri": "sip:h", "code": 200, "reason": "OK", "body": "x"}]
        ev += [h("push", "X-%d" % (i % 3), "1") for i in range(198)] + [h("push", "Y", "1"), h("set", "Z", "1"), h("push", "X", "1"), h("set", "Q", "1"), h("set", "Y", "2"), h("maxf"), h("write"),
               h("remove", "Y"), h("maxf"), h("maxf"), h("push", "X", "1"), h("get", "x-1"), h("write"), h("remove", "x-1"), h("write"), h("maxf")]
        out.append({"cfg": [], "ev": ev})
        for k in (199, 200, 201):
            ls = [REQ[0]] + ["X-%d: 1" % (i % 7) for i in range(k)]
            out.append({"cfg": [], "ev": [parse("req", "plain", ls + ["", ""]), h("write"), parse("req", "strict", ls[:-1] + ["l: 0", "", ""]), h("maxf"), h("write")]})
        for kind, st in (("req", REQ[0]), ("res", RES[0])):
            for mode in ("plain", "strict"):
                for size in (65536, 65537):
                    for cl in (0, 1):
                        head = [st] + ["Content-Length: %d" % (65536 - 60)] * cl + [""]
                        b = size - sum(map(len, head)) - 2 * len(head)
                        if cl:
                            head[1] = "Content-Length: %d" % b
                            b = size - sum(map(len, head)) - 2 * len(head)
                        out.append({"cfg": [], "ev": [parse(kind, mode, head + ["b" * b]), h("write")]})
        if prop == "M02":
            out.append({"cfg": [], "ev": [{"op": "huge", "n": n} for n in (10485760, 10485761)]})
        return out

    def must_see(self, prop, tier):
        both = ["parse:ok", "parse:err"]
        return both + {"M01": [], "M02": ["build:ok", "build:err", "write:ok"], "M03": ["push:ok", "push:err", "set:ok", "set:err", "replace:no", "remove:0", "remove:1", "maxf:zero", "maxf:bad", "maxf:69"]}[prop]


SUITES = [SipMsg()]
