from lib import tset
from .base import Suite
from .sdp import DIRS

V, O, S, TM, C = "v=0", "o=alice 1 2 IN IP4 192.0.2.1", "s=call", "t=0 0", "c=IN IP4 192.0.2.1"
WAYS = ["send", "recv", "sendrecv", "none"]
STATS = ["e2e", "local", "remote"]


def parse(lines, eol="\r\n", end=None, via="core"):
    return {"op": "parse", "lines": list(lines), "eol": eol, "end": eol if end is None else end, "via": via}


def answer(loc="", rem="", up=False):
    return {"op": "answer", "loc": loc, "rem": rem, "up": up}


POOL = ["i=about x ", "u=http://x/", "e=a@b", "p=+1 2", "c=IN IP6 2001:db8::1", "b=AS:64", "b=tias:0640", "t=1 02", "r=7d 1h  0 25h",
        "z=10 -1h  020 0", "k=prompt", "k=clear:a:b", "a=sendonly", "a=x: y ", "a=", "a=group:fid 1  2", "a=group:LS a", "a=sqn:07", "a=cdsc:1 audio  RTP/AVP 0 18",
        "a=cparmin:b=AS:64", "a=mid:1", "a=mid:2", "a=rtcp:053020 IN IP4 192.0.2.7", "a=rtcp:9", "a=rtpmap:96 opus/48000/2", "m=audio 4000/2 RTP/AVP 96 0",
        "m=video 0 RTP/SAVPF 97", "m=image 5 udptl t38", "v=0", "o=bob 3 4 IN IP6 ::1", "x=unknown"]
BADPOOL = ["v=1", "o=a 1 1 IN IP4", "t=0", "t=0 x", "r=1 2", "z=1", "z=x 1", "c=IN IP4", "b=AS", "b=AS:1:2", "b=AS:10000001", "m=audio 4000 RTP/AVP",
           "m=audio 70000 RTP/AVP 0", "m=audio 4000/2/3 RTP/AVP 0", "m=audio 4/ RTP/AVP 0", "q:1", "", " ", "A", "a=group", "a=group:LS", "a=sqn:256", "a=sqn", "a=cdsc:0 audio RTP/AVP 0",
           "a=cdsc:1 audio RTP/AVP", "a=mid", "a=rtcp:x", "a=rtcp:1 IN", "a=rtcp:65536"]
PRE = ["a=curr:qos e2e send", "a=curr:qos local recv", "a=curr:QoS Local SEND", "a=curr:qos remote sendrecv", "a=curr:sec e2e sendrecv", "a=curr:qos remote none",
       "a=des:qos mandatory e2e sendrecv", "a=des:qos optional local send", "a=des:qos mandatory local sendrecv", "a=des:qos mandatory remote recv",
       "a=des:qos none e2e none", "a=des:sec mandatory e2e send", "a=des:qos mandatory local none", "a=conf:qos e2e recv", "a=conf:qos remote send", "a=curr:qos e2e"]


class SdpCore(Suite):
    name = "sdpcore"
    module = "SdpCore"
    props = ("S02", "O03")

    def mc(self, tier, prop):
        T = tier == "thorough"
        inv = ["TypeOK", "Kept", "Places", "Required", "Involution", "Monotone", "Vacuous"]
        text = dict(module="M_SdpCore", inv=inv, prop=[])
        aud = [V, O, S, TM, C, "m=audio 4000 RTP/AVP 0 96"]
        if prop == "O03":
            acts = [answer(), answer("send"), answer("sendrecv", "recv", True), answer("", "", True), answer("none", "send")]
            return [
                dict(text, emit=True, consts={"Pool": tset(PRE), "Starts": tset([aud]), "Acts": tset(acts), "MaxLines": 9 if T else 8, "Depth": 2}),
                dict(text, emit=T, consts={"Pool": tset(PRE[:4] + PRE[6:9]), "Starts": tset([aud + ["a=des:qos mandatory local sendrecv"]]), "Acts": tset(acts[:1]),
                                           "MaxLines": 12 if T else 11, "Depth": 2}),
            ]
        return [
            dict(text, emit=True, consts={"Pool": tset(POOL + BADPOOL), "Starts": tset([[V, O, S, TM], [V, O, S, TM, C, "m=audio 4000 RTP/AVP 0"]]), "Acts": tset([]),
                                          "MaxLines": 7 if T else 6, "Depth": 1}),
            dict(text, emit=True, consts={"Pool": tset([V, O, S, TM, C, "m=audio 4000 RTP/AVP 0", "a=x:1", "r=1 2 3", "", "x=y"]), "Starts": tset([[]]),
                                          "Acts": tset([]), "MaxLines": 5 if T else 4, "Depth": 1}),
            dict(text, emit=T, consts={"Pool": tset(["t=1 2", "r=1 2 3", "r=4 5 6", "z=1 2", "b=AS:1", "m=audio 1 RTP/AVP 0", "a=mid:x", "a=sqn:1", "a=cdsc:1 a b c", "a=group:LS a"]),
                                       "Starts": tset([[V, O, S, TM, C]]), "Acts": tset([]), "MaxLines": 10 if T else 9, "Depth": 1}),
        ]

    # ------------------------------------------------------------ generation
    def text(self, rng):
        return rng.choice(["call", "a b", " lead", "trail ", "tab\tx", "", "x:y", "m=audio", "a=b:c", "  ", "=", "v=0o=x", "-"])

    def conn(self, rng):
        return "c=" + rng.choice(["IN IP4 192.0.2.%d" % rng.randint(1, 9), "IN IP6 2001:db8::%d" % rng.randint(1, 9), "IN IP4 224.2.1.1/127", "IN  IP4 host.example ", " IN IP4 h"])

    def band(self, rng):
        return "b=%s:%s" % (rng.choice(["AS", "CT", "rs", "RR", "TIAS", "tias", "X-YZ", "as"]), rng.choice(["0", "64", "064", "10000000", "128000"]))

    def attr(self, rng, media):
        x = rng.random()
        if x < 0.15:
            return "a=" + rng.choice(DIRS)
        if x < 0.3:
            return "a=rtpmap:%s %s/%s%s" % (rng.choice(["8", "96", "97", "127", "128", "x", "096"]), rng.choice(["PCMU", "opus", "n" * 64, "n" * 65]),
                                            rng.choice(["8000", "48000", "0", "1000000000", "1000000001", "x"]), rng.choice(["", "", "/2", "/" + "p" * 16, "/" + "p" * 17]))
        if x < 0.38:
            return "a=fmtp:%s%s" % (rng.choice(["96", "97", "x", "f" * 16, "f" * 17]), rng.choice([" a=1;b=2", "  sp ", "", " 0-15"]))
        if x < 0.5:
            return "a=" + rng.choice(["group:LS 1 2", "group:fid  a", "group:Srf x y z", "group:BUNDLE 0 1", "group:bundle a", "group:LS a" + " b" * 9])
        if x < 0.62:
            return "a=" + rng.choice(["mid:1", "mid:a b", "mid:", "mid:zz", "rtcp:5", "rtcp:053020 IN IP4 192.0.2.7", "rtcp:65535 IN IP6 ::1", "rtcp: 7 "])
        if x < 0.8:
            return "a=" + rng.choice(["sqn:0", "sqn:255", "sqn:007", "cdsc:1 audio RTP/AVP 0 18", "cdsc:255 image  udptl t38", "cpar:a=fmtp:96 0-16", "cpar:", "cparmin:b=AS:64",
                                      "cparmax:b=AS:128 "])
        if x < 0.88:
            return rng.choice(PRE)
        return "a=" + rng.choice(["x", "", ":", "x:", ":y", "x: y ", "lang:en", "sendrecv:1", "x\ty", " sp", "a=b", "ptime:20"])

    def badattr(self, rng):
        return "a=" + rng.choice(["group", "group:", "group:LS", "group: LS ", "mid", "rtcp", "rtcp:", "rtcp:x", "rtcp:65536", "rtcp:1 IN", "rtcp:1 IN IP4", "rtcp:1 IN IP4 a b", "sqn", "sqn:256",
                                  "sqn:x", "sqn: 1", "cdsc", "cdsc:1 audio RTP/AVP", "cdsc:0 a b c", "cdsc:256 a b c", "cpar", "cparmin", "cparmax", "cdsc:1 a b c", "cpar:x"])

    def mline(self, rng):
        return "m=%s %s %s %s" % (rng.choice(["audio"] * 4 + ["video", "text", "image", "application", "message", "x"]),
                                  rng.choice(["4000", "0", "65535", "4000/2", "00009", "9/0", " 5 "]),
                                  rng.choice(["RTP/AVP"] * 4 + ["RTP/SAVP", "UDP/TLS/RTP/SAVPF", "UDP", "udptl", "TCP/MSRP"]),
                                  rng.choice(["0", "0 8", "96", "128", "t38", "*", "0 8 96 97 98", "96  97 ", "x y"]))

    def good(self, rng):
        q = [V, "o=%s %s %s IN %s" % (rng.choice(["alice", "-", "a:b"]), rng.choice(["0", "007", "x", "18446744073709551616"]), rng.randint(0, 9), rng.choice(["IP4 192.0.2.1", "IP6 ::1", "IP4  host "])),
             "s=" + self.text(rng)]
        opt = []
        for k in "iu":
            if rng.random() < 0.3:
                opt.append(k + "=" + self.text(rng))
        for k in "ep":
            for _ in range(rng.choice([0, 0, 0, 1, 2, 3])):
                opt.append(k + "=" + self.text(rng))
        sess = rng.random() < 0.7
        if sess:
            opt.append(self.conn(rng))
        opt += [self.band(rng) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        tim = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            tim.append(["t=%s %s" % (rng.choice(["0", "1", "18446744073709551615", "007"]), rng.choice(["0", "5"]))])
            for _ in range(rng.choice([0, 0, 1, 2])):
                tim[-1].append("r=" + rng.choice(["7d 1h 0", "1 2 3", " 604800  3600 0 90000 ", "1 2 3 4"]))
        late = []
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            late.append("z=" + rng.choice(["1 -1h", "1 2 3 4", " 01  2 ", ""]))
        if rng.random() < 0.2:
            late.append("k=" + self.text(rng))
        late += [self.attr(rng, False) for _ in range(rng.choice([0, 0, 1, 3]))]
        if rng.random() < 0.2:
            late.append(rng.choice(["x=1", "Z=q", "o=again", "v=7", "s=other", "y="]))
        rest = opt + [None] * len(tim) + late
        if rng.random() < 0.25:
            rng.shuffle(rest)
        it = iter(tim)
        for x in rest:
            q += next(it) if x is None else [x]
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            q.append(self.mline(rng))
            body = []
            if not sess or rng.random() < 0.2:
                body.append(self.conn(rng))
            if rng.random() < 0.2:
                body.append("i=" + self.text(rng))
            body += [self.band(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
            if rng.random() < 0.15:
                body.append(rng.choice(["k=clear:x", "k=prompt", "k=", "k=a:b:c"]))
            body += [self.attr(rng, True) for _ in range(rng.choice([0, 1, 2, 4]))]
            if rng.random() < 0.3:
                rng.shuffle(body)
            q += body
        # capabilities need their sequence number
        if rng.random() < 0.9:
            out, has = [], None
            sec = [[]]
            for l in q:
                if l.startswith("m="):
                    sec.append([])
                sec[-1].append(l)
            for b in sec:
                if any(l.startswith(("a=cdsc", "a=cpar")) for l in b) and not any(l.startswith("a=sqn") for l in b):
                    b.append("a=sqn:%d" % rng.randint(0, 255))
                out += b
            q = out
        return q

    def damage(self, rng, q):
        q = list(q)
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(q)) if q else 0
            x = rng.random()
            if not q or x < 0.2:
                q.insert(i, rng.choice(POOL + BADPOOL))
            elif x < 0.3:
                q.insert(rng.randint(0, len(q)), self.badattr(rng))
            elif x < 0.42:
                del q[i]
            elif x < 0.52:
                j = rng.randrange(len(q))
                q[i], q[j] = q[j], q[i]
            elif x < 0.6:
                q[i] = q[i] + q[(i + 1) % len(q)]
            elif x < 0.68:
                if q[i][:2] in ("i=", "u=", "e=", "p=", "s=", "k=", "a="):
                    q[i] = q[i] + "\r" + rng.choice(["b=AS:1", "a=x"])
            elif x < 0.8:
                q[i] = q[i].replace(" ", "  ", 1) if rng.random() < 0.5 and not q[i].startswith(("a=rtpmap", "v=")) else q[i] + rng.choice([" ", " x"])
            else:
                l = q[i]
                k = rng.randint(2, max(2, len(l)))
                c = rng.choice(" :=0a9x")
                n = rng.choice([l[:k] + c + l[k:], l[:k] + l[k + 1:], l[:k] + c + l[k + 1:]])
                if self.plain(n):
                    q[i] = n
        return q

    def plain(self, l):
        """Not one of the corners left open: other versions, odd codec maps, an unnamed bandwidth."""
        if l.startswith("v=") and l != "v=0":
            return False
        if l.startswith("a=rtpmap:"):
            v = l[9:]
            return v.count("/") < 3 and "  " not in v and " /" not in v and "0 " != v[:2]
        return not l.startswith("b=:")

    def pre(self, rng, kind=None):
        kind = kind or rng.choice(["curr", "des", "des", "conf"])
        case = lambda x: rng.choice([x] * 5 + [x.upper(), x.capitalize()])
        ty = rng.choice(["qos"] * 8 + ["QoS", "sec"])
        w = [ty] + ([case(rng.choice(["mandatory"] * 3 + ["optional"] * 2 + ["none", "failure", "unknown"]))] if kind == "des" else [])
        w += [case(rng.choice(STATS)), case(rng.choice(WAYS))]
        sep = rng.choice([" "] * 6 + ["  "])
        return "a=%s:%s" % (kind, sep.join(w))

    def offer(self, rng):
        q = [V, O, S, TM, C]
        if rng.random() < 0.15:
            q.append("a=group:LS 1 2")
        for i in range(rng.choice([1, 1, 1, 2, 3])):
            q.append(rng.choice(["m=audio 4000 RTP/AVP 0"] * 5 + ["m=audio 5/2 RTP/AVP 96 0", "m=audio 0 RTP/AVP 0", "m=image 5 udptl t38", "m=audio 5 RTP/AVP 101 0"]))
            body = []
            x = rng.random()
            if x < 0.6:     # a consistent set: wishes first, then reports of the same segments
                for _ in range(rng.randint(1, 2)):
                    st = rng.choice(STATS)
                    body.append("a=des:qos %s %s %s" % (rng.choice(["mandatory", "mandatory", "optional"]), st, rng.choice(WAYS)))
                    for _ in range(rng.choice([0, 1, 1, 2, 2])):
                        body.append("a=curr:qos %s %s" % (st if rng.random() < 0.8 else rng.choice(STATS), rng.choice(WAYS)))
                if rng.random() < 0.4:
                    body.append(self.pre(rng, "conf"))
            else:
                body += [self.pre(rng) for _ in range(rng.choice([1, 2, 3, 5]))]
            if rng.random() < 0.3:
                body.append(rng.choice(["a=rtcp:5001", "a=rtcp:5001 IN IP4 192.0.2.66", "a=sqn:3", "a=mid:1", "a=sendonly", "a=curr:qos e2e", "a=conf:qos x send", "a=curr", "a=des",
                                        "a=des:qos optional e2e x", "a=rtpmap:96 opus/48000/2"]))
                if body[-1] == "a=sqn:3":
                    body.append("a=cdsc:1 audio RTP/AVP 0")
            rng.shuffle(body)
            q += body
        return q

    def gen(self, rng, tier, prop):
        T = tier == "thorough"
        out = []
        if prop == "O03":
            for _ in range(16000 if T else 2500):
                ev = []
                for _ in range(2):
                    ev.append(parse(self.offer(rng), via=rng.choice(["core", "body"])))
                    for _ in range(rng.choice([1, 2])):
                        ev.append(answer(rng.choice([""] + WAYS), rng.choice(["", ""] + WAYS), rng.random() < 0.4))
                out.append({"cfg": [], "ev": ev})
            return out
        for _ in range(10000 if T else 1500):
            ev = []
            for _ in range(3):
                q = self.good(rng)
                if rng.random() < 0.4:
                    q = self.damage(rng, q)
                eol = rng.choice(["\r\n"] * 4 + ["\n"])
                end = eol if rng.random() < 0.8 else ""
                via = "core"
                if rng.random() < 0.3:
                    via = "body"
                    if rng.random() < 0.4:
                        q = rng.choice([[""], ["  "], ["", " "], []]) + q + rng.choice([[], [""], ["", " "], ["  ", ""]])
                elif rng.random() < 0.1:
                    q.insert(rng.randint(0, len(q)), rng.choice(["", "", "\r", " "]))
                if rng.random() < 0.05 and eol == "\n":
                    q = [l + "\r" for l in q]
                ev.append(parse(q, eol, end, via))
            out.append({"cfg": [], "ev": ev})
        for ev in self.edges():
            out.append({"cfg": [], "ev": [ev]})
        return out

    def edges(self):
        """At and just beyond each limit."""
        base = [V, O, S, C, TM]
        m = "m=audio 1 RTP/AVP 0"
        for n in (10, 11):
            yield parse(base + ["e=x"] * n)
            yield parse(base + ["p=x"] * n)
            yield parse([V, O, S, C] + [TM] * n)
            yield parse(base + ["r=1 2 3"] * n)
            yield parse(base + ["r=1 2 3"] * (n - 3) + [TM] + ["r=1 2 3"] * 3)
        for n in (20, 21):
            yield parse(base + ["b=AS:1"] * n)
            yield parse(base + [m] + ["b=AS:1"] * n)
            yield parse(base + ["a=group:LS a"] * n)
        for n in (50, 51):
            yield parse(base + [m] * n)
            yield parse(base + ["z=" + " ".join(["1 2"] * n)])
            yield parse(base + ["z=" + " ".join(["1 2"] * 25)] + ["z=" + " ".join(["1 2"] * (n - 25))])
            yield parse(base + ["r=1 2" + " 3" * n])
            yield parse(base + ["a=group:LS" + " a" * n])
            yield parse(base + [m, "a=sqn:1"] + ["a=cdsc:1 a b c"] * n)
        for n in (100, 101):
            yield parse(base + ["a=x"] * n)
            yield parse(base + [m] + ["a=x"] * n)
            yield parse(base + ["a=sqn:1"] + ["a=cpar:x"] * (n - 1))
            yield parse(base + ["a=x"] * 60 + [m] + ["a=x"] * n + [m] + ["a=y"] * 60)
        for n in (128, 129):
            yield parse(base + ["m=audio 1 RTP/AVP" + " 0" * n])
            yield parse(base + ["a=sqn:1", "a=cdsc:1 a b" + " 0" * n])
            yield parse(base + ["a=" + "n" * n])
            yield parse(base + ["a=" + "n" * n + ":v"])
        for k, n in (("s", 1024), ("i", 2048), ("u", 2048), ("e", 320), ("p", 32), ("k", 64)):
            for d in (0, 1):
                l = k + "=" + "x" * (n + d)
                yield parse([V, O, l, C, TM]) if k == "s" else parse(base + [l])
        for d in (0, 1):
            yield parse(base + [m, "i=" + "x" * (2048 + d)])
            yield parse(base + ["k=clear:" + "x" * (1024 + d)])
            yield parse(base + ["a=n:" + "x" * (4096 + d)])
            yield parse(base + ["b=" + "B" * (32 + d) + ":1"])
            yield parse(base + ["r=1 2 " + "3" * (16 + d)])
            yield parse(base + ["r=" + "1" * (16 + d) + " 2 3"])
            yield parse(base + ["z=1 " + "2" * (16 + d)])
            yield parse(base + ["a=group:LS " + "a" * (64 + d)])
            yield parse(base + ["a=sqn:1", "a=cdsc:1 a b " + "c" * (16 + d)])
            yield parse(base + ["a=sqn:1", "a=cdsc:1 " + "a" * (32 + d) + " b c"])
            yield parse(base + ["a=sqn:1", "a=cdsc:1 a " + "b" * (64 + d) + " c"])
            yield parse(base + [m, "a=fmtp:96 " + "x" * (1024 + d)])
            for w in ("m=%s 1 b 0" % ("a" * (32 + d)), "m=a 1 %s 0" % ("b" * (64 + d)), "m=a 1 b %s" % ("0" * (16 + d))):
                yield parse(base + [w])
            for i, n in enumerate((255, 64, 64, 16, 16, 255)):
                w = ["a", "1", "2", "IN", "IP4", "h"]
                w[i] = "x" * (n + d)
                yield parse([V, "o=" + " ".join(w), S, C, TM])
            for i, n in enumerate((16, 16, 255)):
                w = ["IN", "IP4", "h"]
                w[i] = "x" * (n + d)
                yield parse([V, O, S, "c=" + " ".join(w), TM])
        for x in ("18446744073709551615", "18446744073709551616"):
            yield parse([V, O, S, C, "t=%s 0" % x])
            yield parse([V, O, S, C, "t=0 %s" % x])
            yield parse(base + ["z=%s 1" % x])
        # connections: for the session, for each medium, for some
        for c in ([], [C]):
            for q in ([m], [m, C], [m, C, m], [m, C, m, C], []):
                yield parse([V, O, S] + c + [TM] + q)

    def owners(self, m):
        e = m["trace"]["ev"][m["i"]]
        if e["op"] == "answer":
            return ("O03",)
        if m["kind"] != "observation":
            return self.props
        for w in m["want"]:
            if w.get("r") == "ok" and all(e["obs"].get(k) == w[k] for k in w if k != "view"):
                a, b = e["obs"]["view"], w["view"]
                if len(a) == len(b) and all(x[k] == y[k] for x, y in zip(a, b) for k in y if k != "met"):
                    return ("O03",)         # only the verdict on preconditions differs
                if len(a) == len(b) and all(x[k] == y[k] for x, y in zip(a, b) for k in y if k not in ("met", "curr", "des", "conf")):
                    return self.props
        return ("S02",)

    def must_see(self, prop, tier):
        return ["parse:ok", "answer:ok"] if prop == "O03" else ["parse:ok", "parse:err"]


SUITES = [SdpCore()]
