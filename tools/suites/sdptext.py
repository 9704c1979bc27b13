from lib import tset
from .base import Suite
from .sdp import DIRS

LIM = {"bytes": 131072, "lines": 2048, "len": 4096, "attrs": 500}
V, O, S, TM = "v=0", "o=alice 1 2 IN IP4 192.0.2.1", "s=call", "t=0 0"


def parse(text, eol="\r\n", end=None, **lim):
    return {"op": "parse", "lines": list(text), "eol": eol, "end": eol if end is None else end, "lim": dict(LIM, **lim)}


def setc(f, i=1, **kw):
    return {"op": "set", "c": dict({"f": f, "i": i, "x": "", "pt": "", "n": "", "rate": "", "par": ""}, **kw)}


def call(f, x="", **kw):
    return dict({"f": f, "x": x, "id": "", "ad": "", "v": "", "pt": "", "n": "", "rate": "", "par": "", "t": "",
                 "port": "", "proto": "", "calls": []}, **kw)


def build(*calls):
    return {"op": "build", "calls": list(calls)}


def med(t="audio", port="4000", proto="RTP/AVP", calls=()):
    return call("media", t=t, port=port, proto=proto, calls=list(calls))


POOL = ["i=about x ", "u=http://x/", "e=a@b", "p=+1 2", "c=IN IP4 192.0.2.9", "c=IN IP6 2001:db8::1", "b=AS:64", "b=TIAS:064000",
        "t=1 2", "r=7d 1h 0 25h", "z=10 -1h  20 0", "k=prompt", "a=sendonly", "a=recvonly ", "a=rtpmap:96 opus/48000/2", "a=x: y ",
        "a=rtpmap:96 PCMU/8000", "a=", "m=audio 4000/2 RTP/AVP 96 0", "m=video 0 RTP/SAVPF 97", "m=image 5 udptl t38",
        "m=application 9 UDP/DTLS/SCTP webrtc-datachannel", "v=0", "o=bob 3 4 IN IP6 ::1", "s=", "a=ptime:020"]
BADPOOL = ["v=1", "o=a 1 1 IN IP4", "t=0", "t=0 x", "r=1", "z=1", "c=IN IP4", "c=OUT IP4 x", "b=AS", "b=:1", "m=audio 4000 RTP/AVP",
           "m=audio 70000 RTP/AVP 0", "m=audio 4000 RTP/AVP 128", "m=audio 4000 RTP/AVP x", "q=1", "", "A=x", "a"]


class SdpText(Suite):
    name = "sdptext"
    module = "SdpText"
    props = ("S01",)

    def mc(self, tier, prop):
        T = tier == "thorough"
        inv = ["TypeOK", "Kept", "MediaOrder", "Required", "Unusable"]
        base = [[V, O, S, TM], [V, O, S, TM, "m=audio 4000 RTP/AVP 0"]]
        sets = [setc("dir", x="inactive"), setc("ptime", x="30"), setc("map", pt="96", n="G722", rate="8000"), setc("nomap", pt="96"),
                setc("fmtp", pt="96", x="a=1"), setc("mid", x="m"), setc("dir", 0, x="recvonly"), setc("nodir"), setc("noptime")]
        text = dict(module="M_SdpText", inv=inv, prop=[])
        return [
            dict(text, emit=True, consts={"Pool": tset(POOL + BADPOOL), "Starts": tset(base), "Acts": tset([]),
                                          "MaxLines": 6, "Depth": 1}),
            dict(text, emit=True, consts={"Pool": tset([V, O, S, TM, "m=audio 4000 RTP/AVP 0", "a=x:1", "r=1 2"]), "Starts": tset([[]]),
                                          "Acts": tset([]), "MaxLines": 5 if T else 4, "Depth": 1}),
            dict(text, emit=T, consts={"Pool": tset(POOL), "Starts": tset([[V, O, S, TM, "m=audio 4000 RTP/AVP 96", "a=sendonly"]]),
                                       "Acts": tset([]), "MaxLines": 9 if T else 8, "Depth": 1}),
            dict(text, emit=True, consts={"Pool": tset([]), "Acts": tset(sets), "MaxLines": 1, "Depth": 5 if T else 4,
                                          "Starts": tset([[V, O, S, TM, "a=sendonly", "m=audio 4000 RTP/AVP 96 0",
                                                           "a=rtpmap:96 opus/48000/2", "a=rtpmap:96 x/1", "a=fmtp:96 z", "a=sendrecv", "a=ptime:20"]])}),
        ]

    # ------------------------------------------------------------ generation
    def word(self, rng, colon=True):
        return rng.choice(["alice", "-", "x", "IN", "IP4", "0", "1", "10", "2890844526", "18446744073709551616", "192.0.2.1", "2001:db8::5" if colon else "q",
                           "a=b", "m=", "host.example", "é", "+5", "007"])

    def text(self, rng):
        return rng.choice(["call", "a b", " lead", "trail ", "tab\t", "", "x:y", "m=audio", "a=b:c", "é ü", "  ", "=", "v=0o=x"])

    def conn(self, rng):
        return "c=IN " + rng.choice(["IP4 192.0.2.%d" % rng.randint(1, 9), "IP6 2001:db8::%d" % rng.randint(1, 9), "IP4 224.2.1.1/127", "IP4 host.example "])

    def num(self, rng):
        return rng.choice(["0", "1", "64", "007", "65535", "65536", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "2873397496", "00", ""])

    def attr(self, rng):
        x = rng.random()
        if x < 0.25:
            return "a=" + rng.choice(DIRS)
        if x < 0.45:
            return "a=rtpmap:%s %s/%s%s" % (rng.choice(["0", "8", "96", "97", "127", "128", "255", "256", "x", "096"]), rng.choice(["PCMU", "opus", "a b", ""]),
                                            rng.choice(["8000", "48000", "0", "4294967296", "x"]), rng.choice(["", "", "/2", "/", "/2/3"]))
        if x < 0.55:
            return "a=fmtp:%s%s" % (rng.choice(["96", "97", "0", "x", ""]), rng.choice([" a=1;b=2", "  sp ", "", " 0-15"]))
        if x < 0.63:
            return "a=candidate:" + " ".join(["1", rng.choice(["1", "x"]), rng.choice(["UDP", "tcp", "Udp", "sctp"]), rng.choice(["2130706431", "4294967296"]),
                                              "192.0.2.3", rng.choice(["5000", "70000"]), rng.choice(["typ", "typ", "typ", "tpy"]), rng.choice(["host", "srflx", "x"])]
                                             + rng.choice([[], ["raddr", "10.0.0.1", "rport", "9"], ["generation", "0"], ["rport", "x"], ["raddr"],
                                                           ["ufrag", "a", "raddr", "h", "raddr", "g", "network-id", "1"]]))
        if x < 0.7:
            return "a=" + rng.choice(["fingerprint:sha-256 AB:CD", "fingerprint:sha-1", "ssrc:11 cname:a b", "ssrc:11 x", "ssrc:x y", "setup:actpass", "setup:x",
                                      "mid:a", "mid:", "ptime:20", "ptime:x", "maxptime:60", "ptime:", "group:BUNDLE a b", "msid-semantic: WMS s"])
        return "a=" + rng.choice(["x", "", ":", "x:", ":y", "x: y ", "lang:en", "sendrecv:1", "x\ty", " sp", "a=b", "long" * 10])

    def mline(self, rng):
        return "m=%s %s %s %s" % (rng.choice(["audio"] * 4 + ["video", "text", "image", "application", "message", "x"]),
                                  rng.choice(["4000", "0", "65535", "4000/2", "65536", "4000/", "9/0", "00009"]),
                                  rng.choice(["RTP/AVP"] * 4 + ["RTP/SAVP", "RTP/SAVPF", "UDP/TLS/RTP/SAVPF", "TCP/TLS/RTP/SAVPF", "RTP/AVPF", "UDP", "TCP", "udptl", "TCP/MSRP"]),
                                  rng.choice(["0", "0 8", "96", "127", "128", "t38", "*", "0 8 96 97 98", "96  97", "x y", "000"]))

    def good(self, rng):
        """A mostly valid text in roughly the proper order."""
        q = [V, "o=%s %s %s IN %s" % (rng.choice(["alice", "-", "a:b"]), rng.randint(0, 9), rng.randint(0, 9), rng.choice(["IP4 192.0.2.1", "IP6 ::1", "IP4 host"])),
             "s=" + self.text(rng)]
        for k in "iuep":
            if rng.random() < 0.25:
                q.append(k + "=" + self.text(rng))
        if rng.random() < 0.6:
            q.append(self.conn(rng))
        for _ in range(rng.choice([0, 0, 1, 2])):
            q.append("b=%s:%s" % (rng.choice(["AS", "CT", "X-y z"]), rng.choice(["0", "64", "4294967295", "064"])))
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            q.append("t=%s %s" % (rng.choice(["0", "1", "18446744073709551615", "007"]), rng.choice(["0", "5"])))
            for _ in range(rng.choice([0, 0, 1, 2])):
                q.append("r=" + rng.choice(["7d 1h 0", "1 2", " 604800  3600 0 90000 ", "1 2 3 4"]))
        if rng.random() < 0.2:
            q.append("z=" + rng.choice(["1 -1h", "1 2 3 4", " 1  2 "]))
        if rng.random() < 0.2:
            q.append("k=" + self.text(rng))
        for _ in range(rng.choice([0, 0, 1, 3])):
            q.append(self.attr(rng))
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            m = self.mline(rng)
            if rng.random() < 0.8:
                m = rng.choice(["m=audio 4000 RTP/AVP 0 8 96", "m=video 0 RTP/SAVPF 97", "m=application 9 UDP/BFCP *", "m=image 1/2 udptl t38"])
            q.append(m)
            if rng.random() < 0.2:
                q.append("i=" + self.text(rng))
            for _ in range(rng.choice([0, 0, 1, 2])):
                q.append(self.conn(rng) if rng.random() < 0.5 else "b=AS:%d" % rng.randint(1, 99))
            if rng.random() < 0.15:
                q.append("k=clear:x")
            for _ in range(rng.choice([0, 1, 2, 4])):
                q.append(self.attr(rng))
        return q

    def damage(self, rng, q):
        q = list(q)
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(q)) if q else 0
            x = rng.random()
            if not q or x < 0.15:
                q.insert(i, rng.choice(POOL + BADPOOL))
            elif x < 0.3:
                del q[i]
            elif x < 0.4:
                j = rng.randrange(len(q))
                q[i], q[j] = q[j], q[i]
            elif x < 0.5:
                q[i] = q[i] + q[(i + 1) % len(q)]
            elif x < 0.58:
                q[i] = q[i] + "\r" + rng.choice(["", "b=AS:1", "a=x"])
            elif x < 0.7:
                q[i] = q[i].replace(" ", "  ", 1) if rng.random() < 0.5 else q[i] + rng.choice([" ", " x", "x"])
            else:
                l = q[i]
                k = rng.randint(0, len(l))
                c = rng.choice(" :=/0a9x")
                q[i] = rng.choice([l[:k] + c + l[k:], l[:k] + l[k + 1:], l[:k] + c + l[k + 1:]])
        return q

    def setter(self, rng):
        i = rng.choice([1, 1, 1, 2, 0])
        if i == 0:
            return setc(*rng.choice([("dir", 0), ("nodir", 0)]), x=rng.choice(DIRS))
        f = rng.choice(["dir", "dir", "nodir", "ptime", "maxptime", "noptime", "nomaxptime", "mid", "setup", "fmtp", "fmtp", "candidate", "nocandidate",
                        "map", "map", "map", "nomap"])
        x = {"dir": rng.choice(DIRS), "ptime": rng.choice(["20", "4294967295"]), "maxptime": "0", "mid": rng.choice(["a", "b c"]),
             "setup": rng.choice(["active", "holdconn"]), "fmtp": rng.choice([" p=1 ", "0-16"]),
             "candidate": rng.choice(["f 1 udp 9 192.0.2.1 5 typ host", "f 2 tcp 0 h 65535 typ relay raddr 10.0.0.1 rport 7 tcptype so",
                                      "f 2 sctp 0 h 1 typ zzz generation 0"])}.get(f, "")
        return setc(f, i, x=x, pt=rng.choice(["96", "97", "0", "127", "128"] if f == "map" else ["96", "97", "0"]),
                    n=rng.choice(["opus", "PCMU", "a/b", "a b", "", "x" * 64, "x" * 65]) if rng.random() < 0.4 else "G722",
                    rate=rng.choice(["8000", "48000", "999", "1000", "1000000000", "1000000001"]),
                    par=rng.choice(["", "", "/2", "/", "/a b", "/1/2", "/1\r\na=evil", "/" + "p" * 64, "/" + "p" * 65]))

    def arg(self, rng, ok, n):
        x = rng.random()
        if x < 0.75:
            return rng.choice(ok)
        return rng.choice(["", " ", "a b", "a\r\nb=AS:1", "a\nm=x", "a\tb", "x" * n, "x" * (n + 1), " lead", "trail ", "a:b", "a/b", "é"])

    def mcall(self, rng):
        f = rng.choice(["format"] * 4 + ["token", "flag", "attr", "conn", "map", "map", "map"])
        if f == "format":
            return call(f, rng.choice(["0", "8", "96", "127", "128", "255"]) if rng.random() < 0.2 else rng.choice(["0", "8", "96"]))
        if f == "token":
            return call(f, self.arg(rng, ["t38", "8", "*"], 64))
        if f == "flag":
            return call(f, self.arg(rng, DIRS + ["rtcp-mux"], 128))
        if f == "attr":
            return call(f, self.arg(rng, ["ptime", "fmtp", "mid", "rtpmap"], 128), v=self.arg(rng, ["20", "96 a=1", " x", "96 opus/48000/2", "97 x", "096 y/1"], 1024))
        if f == "conn":
            return call(f, self.arg(rng, ["192.0.2.1", "2001:db8::1", "host"], 256))
        return call("map", pt=rng.choice(["0", "96", "97", "96", "128"]) if rng.random() < 0.3 else "96", n=self.arg(rng, ["opus", "PCMU"], 64),
                    rate=rng.choice(["8000", "8000", "48000", "999", "4294967295"]), par=rng.choice(["", "", "/2"]) if rng.random() < 0.8 else "/" + self.arg(rng, ["1"], 64))

    def bcall(self, rng):
        f = rng.choice(["origin", "name", "info", "key", "conn", "flag", "attr", "zone", "time", "addtime", "media", "media", "media"])
        a = lambda ok, n: self.arg(rng, ok, n)
        if f == "origin":
            return call(f, a(["alice", "-"], 256), id=a(["1", "2890844526"], 256), ad=a(["192.0.2.1", "::1", "host"], 256))
        if f in ("name", "info", "key"):
            return call(f, a(["x", "prompt", "a call"], 1024 if f == "key" else 512))
        if f == "conn":
            return call(f, a(["192.0.2.1", "::1"], 256))
        if f == "flag":
            return call(f, a(DIRS + ["ice-lite"], 128))
        if f == "attr":
            return call(f, a(["tool", "group"], 128), v=a(["x", "BUNDLE a b"], 1024))
        if f == "zone":
            return call(f, a(["1", "20"], 128), v=a(["-1h", "0"], 128))
        if f in ("time", "addtime"):
            return call(f, rng.choice(["0 0", "1 2", "18446744073709551615 0"]))
        c = [self.mcall(rng) for _ in range(rng.randint(0, 5))] if rng.random() < 0.6 else [call("format", "0"), call("map", pt="0", n="PCMU", rate="8000")]
        return med(rng.choice(["audio", "video"]), rng.choice(["0", "4000", "65535"]), rng.choice(["RTP/AVP"] * 4 + ["RTP/SAVPF", "UDP", "udptl", "TCP", "UDP/TLS/RTP/SAVPF"]), c)

    def gen(self, rng, tier, prop):
        T = tier == "thorough"
        out = []
        for _ in range(8000 if T else 1200):
            ev = []
            for _ in range(3):
                q = self.good(rng)
                if rng.random() < 0.45:
                    q = self.damage(rng, q)
                eol = rng.choice(["\r\n"] * 4 + ["\n"])
                end = eol if rng.random() < 0.8 else rng.choice(["", "  ", "\r\n\r\n", "\n \r\n", "\r", " \r\n"[:1]])
                lim = {}
                # a line may not end where the line ending makes it a CRLF
                q = [l.rstrip("\r") if eol == "\n" or end[:1] == "\n" else l for l in q]
                if rng.random() < 0.1:
                    end = eol
                    n = len(q)
                    tot = sum(map(len, q)) + len(eol) * (n - 1) + len(end)
                    lim = rng.choice([{"lines": n}, {"lines": max(n - 1, 0)}, {"len": max([len(l) for l in q] + [0])}, {"len": max([len(l) for l in q] + [1]) - 1},
                                      {"bytes": tot}, {"bytes": max(tot - 1, 0)}, {"attrs": 1}, {"attrs": 2}, {"attrs": 0}])
                    if any(ord(c) > 127 for l in q for c in l):
                        lim = {}
                ev.append(parse(q, eol, end, **lim))
                for _ in range(rng.choice([0, 1, 2, 4])):
                    ev.append(self.setter(rng))
            out.append({"cfg": [], "ev": ev})
        for _ in range(4000 if T else 700):
            ev = []
            for _ in range(3):
                ev.append(build(*[self.bcall(rng) for _ in range(rng.randint(1, 6))]))
                for _ in range(rng.choice([0, 0, 2])):
                    ev.append(self.setter(rng))
            out.append({"cfg": [], "ev": ev})
        # at and beyond the limits of the builder and of an attribute section
        m0 = med(calls=[call("format", "0")])
        f50 = [call("format", str(i)) for i in range(50)]
        ev = [build(*[m0] * n) for n in (20, 21)]
        ev += [build(*[call("addtime", "1 2")] * n) for n in (9, 10)]
        ev += [build(*[call("zone", "1", v="2")] * n) for n in (10, 11)]
        ev += [build(*[call("flag", "x")] * n) for n in (50, 51)]
        ev += [build(med(calls=f50 + [call("format", "1")] * k)) for k in (0, 1)]
        ev += [build(med(calls=f50 + [call("token", "1")]))]
        ev += [build(med(calls=[call("format", "0")] + [call("attr", "x", v="1")] * n)) for n in (50, 51)]
        full = [call("map", pt=str(i), n="x", rate="8000") for i in range(50)]
        ev += [build(med(calls=full)), setc("map", pt="49", n="y", rate="8000"), setc("map", pt="50", n="y", rate="8000"), setc("nomap", pt="3"),
               setc("map", pt="50", n="y", rate="8000")]
        ev += [build(med(calls=full + [call("map", pt="7", n="y", rate="8000")])), build(med(calls=full + [call("map", pt="50", n="y", rate="8000")]))]
        big = [V, O, S, TM, "m=audio 1 RTP/AVP 96", "a=rtpmap:96 opus/48000"] + ["a=x:%d" % i for i in range(60)]
        ev += [parse(big), setc("map", pt="96", n="y", rate="8000"), setc("nomap", pt="96"), setc("nomap", pt="96")]
        for n in (500, 501):
            ev += [parse([V, O, S, TM] + ["a=x"] * n), parse([V, O, S, TM, "m=audio 1 RTP/AVP 0"] + ["a=x"] * n),
                   parse([V, O, S, TM] + ["a=x"] * 300 + ["m=audio 1 RTP/AVP 0"] + ["a=y"] * 300)]
        for n in (4094, 4095):
            ev.append(parse([V, O, "s=" + "x" * n, TM]))
        for e in ev if T else ev[::1]:
            if out and e["op"] == "set":
                out[-1]["ev"].append(e)
            else:
                out.append({"cfg": [], "ev": [e]})
        return out

    def must_see(self, prop, tier):
        return ["parse:ok", "parse:err", "build:ok", "build:err", "set:ok", "set:no", "set:none"]



SUITES = [SdpText()]
