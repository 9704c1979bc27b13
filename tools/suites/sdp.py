import itertools
from lib import tset
from .base import Suite

DIRS = ["sendrecv", "sendonly", "recvonly", "inactive"]


def mp(pt, n, rate=8000, ch=0):
    return {"pt": pt, "n": n, "k": n.lower(), "rate": rate, "ch": ch}


def cd(n, rate=8000, ch=0):
    return {"n": n, "k": n.lower(), "rate": rate, "ch": ch}


def line(t="audio", port=4000, proto="RTP/AVP", fmts=("0",), maps=(), fmtp=(), dir="", mid="", ptime=0):
    return {"t": t, "port": port, "proto": proto, "fmts": list(fmts), "maps": list(maps),
            "fmtp": list(fmtp), "dir": dir, "mid": mid, "ptime": ptime}


def desc(media, dir="", tm="0 0"):
    return {"dir": dir, "tm": tm, "media": list(media)}


def addr(ip):
    return {"ip": ip, "addr": ("IN IP6 " if ":" in ip else "IN IP4 ") + ip}


def core(audio, video=(), base=5000, reject=(), dir="", ip="198.51.100.7"):
    return {"audio": list(audio), "video": list(video), "base": base, "reject": list(reject), "dir": dir, **addr(ip)}


def caps(media, dir="", ip="198.51.100.7"):
    return {"loc": desc(media, dir), **addr(ip)}


def prof(vid=False, xa=(), xv=(), tel=True, ap=5000, vp=5002, ip="198.51.100.7"):
    xa, xv = list(xa), list(xv)
    return {"bv": vid, "vid": vid or bool(xv), "xa": xa, "xv": xv, "tel": tel, "ap": ap, "vp": vp,
            "audio": ["0", "8"] + xa, "video": (["96", "97"] if vid else []) + xv, **addr(ip)}


def ans(eng, off, o):
    return {"op": "answer", "eng": eng, "off": off, "o": o}


PCMU, PCMA, OPUS, H264, VP8, TEL = (cd("PCMU", 8000, 1), cd("PCMA", 8000, 1), cd("opus", 48000, 2),
                                    cd("H264", 90000), cd("VP8", 90000), cd("telephone-event", 8000, 1))


class SdpOA(Suite):
    name = "sdpoa"
    module = "SdpOA"
    props = ("O01", "O02")

    def owners(self, m):
        e = m["trace"]["ev"][m["i"]]
        return ("O01",) if e["op"] == "answer" else ("O02",)

    def answers(self, T):
        """Small offers and options in all combinations."""
        out = []
        m1 = [line(fmts=("0", "8")), line(fmts=("8", "0")), line(port=0, fmts=("0",)), line(fmts=("4",)),
              line("video", fmts=("96",), maps=[mp("96", "H264", 90000)]),
              line("application", proto="UDP/BFCP", fmts=("*",)),
              line(fmts=("96", "0"), maps=[mp("96", "opus", 48000, 2)], fmtp=[{"pt": "96", "v": "minptime=10"}]),
              line(fmts=("0", "96"), maps=[mp("97", "opus", 48000, 2), mp("96", "PCMU", 8000, 1)])]
        opts = [core([PCMU]), core([PCMA, PCMU, OPUS], [H264]), core([OPUS], reject=[0]), core([PCMU], dir="sendonly"),
                core([PCMU], base=65535), core([], [VP8])]
        for a in m1:
            for d in [""] + DIRS:
                for o in opts + [core([PCMU, OPUS], dir=x) for x in DIRS]:
                    if d == "" or o["dir"] != "" or T:
                        out.append(ans("core", desc([dict(a, dir=d)]), o))
        for a, b in itertools.product(m1, m1):
            for o in opts if T else opts[:3]:
                out.append(ans("core", desc([a, b], dir="sendonly"), o))
        loc = [caps([line(port=9000, fmts=("0",))]), caps([line(port=9000, fmts=("8", "0", "97"), maps=[mp("97", "OPUS", 48000, 2)],
                                                               fmtp=[{"pt": "97", "v": "a=1"}], ptime=20)]),
               caps([line("video", port=9002, fmts=("97",), maps=[mp("97", "h264", 90000)]), line(port=9000, fmts=("96",), maps=[mp("96", "pcmu", 8000)])])]
        for a in m1:
            for d in [""] + DIRS:
                for o in loc:
                    out.append(ans("caps", desc([dict(a, dir=d)]), o))
                    for x in DIRS:
                        if T or d in DIRS:
                            out.append(ans("caps", desc([dict(a, dir=d)]),
                                           caps([dict(m, dir=x) for m in o["loc"]["media"]])))
        for a, b in itertools.product(m1, m1):
            for o in loc:
                out.append(ans("caps", desc([a, b], dir="recvonly"), o))
        for a in m1:
            for b in [None] + m1:
                out.append(ans("profile", desc([a] + ([b] if b else [])), prof(vid=b is not None)))
        return out

    def mc(self, tier, prop):
        T = tier == "thorough"
        I = ["TypeOK", "HeldSilent"]
        P = ["LegalAnswers", "OwnPorts", "Restores", "NothingNew"]
        if prop == "O01":
            return [dict(module="M_SdpOA", emit=True, inv=I, prop=P, consts={"Depth": 1, "Acts": tset(self.answers(T))})]
        start = [{"op": "start", "by": "A", "dirs": list(d), "sdir": x, "wish": w, "ver": "1"}
                 for d in (itertools.product([""] + DIRS, repeat=2) if T else [(d,) for d in [""] + DIRS] + [("sendrecv", "recvonly")])
                 for x in ("", "sendonly") for w in ("", "recvonly")]
        move = [{"op": k, "by": b, "wish": w} for k in ("hold", "resume") for b in "AB"
                for w in (("", "recvonly", "inactive") if T else ("", "recvonly"))]
        few = start[::5] + move
        return [dict(module="M_SdpOA", emit=True, inv=I, prop=P, consts={"Depth": 6 if T else 5, "Acts": tset(few)}),
                dict(module="M_SdpOA", emit=False, inv=I, prop=P, consts={"Depth": 9 if T else 7, "Acts": tset(start + move)})]

    # ------------------------------------------------------------ generation
    def rline(self, rng, other=True):
        t = rng.choice(["audio"] * 5 + ["video"] * 3 + (["application", "message", "text"] if other else []))
        pool = [("PCMU", 8000, 0), ("PCMU", 8000, 1), ("pcma", 8000, 0), ("opus", 48000, 2), ("OPUS", 48000, 0), ("opus", 48000, 1),
                ("G722", 8000, 0), ("G729", 8000, 1), ("telephone-event", 8000, 0), ("telephone-event", 48000, 0), ("speex", 16000, 0),
                ("H264", 90000, 0), ("VP8", 90000, 0), ("h264", 90000, 0), ("L16", 44100, 2)]
        fm, maps, fp = [], [], []
        if t in ("audio", "video", "text"):
            for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
                if rng.random() < 0.45:
                    pt = rng.choice(["0", "8", "3", "4", "9", "18", "13", "34"])
                    if rng.random() < 0.3:
                        maps.append(mp(pt, *rng.choice([("PCMU", 8000, 0), ("PCMA", 8000, 1), ("G722", 8000, 0), ("opus", 48000, 2)])))
                else:
                    pt = str(rng.choice([96, 97, 98, 99, 101, 111, 127, 40]))
                    if rng.random() < 0.9:
                        maps.append(mp(pt, *rng.choice(pool)))
                fm.append(pt)
                if rng.random() < 0.3:
                    fp.append({"pt": pt, "v": rng.choice(["0-16", "0-15", "minptime=10;useinbandfec=1", "profile-level-id=42e01f", "annexb=no"])})
            if rng.random() < 0.2:
                maps.append(mp(str(rng.choice([100, 102, 0, 8])), *rng.choice(pool)))
            if rng.random() < 0.1:
                fp.append({"pt": "102", "v": "x=1"})
            if rng.random() < 0.15:
                rng.shuffle(maps)
            if rng.random() < 0.1:
                fm.append(rng.choice(fm))
            proto = rng.choice(["RTP/AVP"] * 6 + ["RTP/SAVP", "RTP/SAVPF", "UDP/TLS/RTP/SAVPF"])
        elif t == "message":
            proto, fm = "TCP/MSRP", ["*"]
        else:
            proto, fm = rng.choice([("UDP/BFCP", ["*"]), ("UDP/DTLS/SCTP", ["datachannel"]), ("TCP", ["x", "wb"])])
        return line(t, rng.choice([4000, 4002, 10000, 65535, 4000, 1, 0]), proto, fm, maps, fp,
                    rng.choice(["", "", ""] + DIRS), rng.choice(["", "", "a", "m1"]), rng.choice([0, 0, 20, 30]))

    def gen(self, rng, tier, prop):
        T = tier == "thorough"
        out = []
        if prop == "O01":
            for _ in range(12000 if T else 1500):
                ev = []
                for _ in range(4):
                    off = desc([self.rline(rng) for _ in range(rng.choice([1, 1, 2, 2, 3, 5]))],
                               rng.choice(["", "", ""] + DIRS), rng.choice(["0 0", "0 0", "2873397496 2873404696"]))
                    ip = rng.choice(["198.51.100.7", "198.51.100.7", "2001:db8::7"])
                    x = rng.random()
                    if x < 0.45:
                        pool = [PCMU, PCMA, OPUS, TEL, cd("G722"), cd("opus", 48000), cd("opus", 48000, 1), cd("G729", 8000, 1), cd("pcmu")]
                        vp = [H264, VP8, cd("H264", 90000, 1)]
                        o = core(rng.sample(pool, rng.randint(0, 5)), rng.sample(vp, rng.randint(0, 3)),
                                 rng.choice([5000, 5000, 5001, 65530, 65533, 65535, 1, 0]),
                                 rng.choice([[], [], [0], [1], [0, 2]]), rng.choice(["", "", ""] + DIRS), ip)
                        ev.append(ans("core", off, o))
                    elif x < 0.85:
                        # local lines; duplicates of a format would make the text ambiguous, not the answer
                        loc = [dict(self.rline(rng), port=rng.choice([9000, 9002])) for _ in range(rng.choice([1, 2, 2, 3]))]
                        if rng.random() < 0.5:
                            # something in common on purpose
                            src = rng.choice(off["media"])
                            l = dict(src, fmts=list(src["fmts"]), maps=list(src["maps"]), fmtp=list(src["fmtp"]),
                                     port=9000, dir=rng.choice(["", ""] + DIRS), mid="")
                            if src["t"] == "audio" and rng.random() < 0.5:
                                ren = {"96": "97", "97": "96", "101": "111", "111": "101"}
                                l["fmts"] = [ren.get(f, f) for f in l["fmts"]]
                                l["maps"] = [dict(m, pt=ren.get(m["pt"], m["pt"])) for m in l["maps"]]
                                l["fmtp"] = [dict(m, pt=ren.get(m["pt"], m["pt"]), v="local=1") for m in l["fmtp"]]
                            loc.insert(rng.randint(0, len(loc)), l)
                        ev.append(ans("caps", off, caps(loc, rng.choice(["", "", ""] + DIRS), ip)))
                    else:
                        ev.append(ans("profile", off, prof(rng.random() < 0.5, rng.choice([[], ["111"], ["9", "96"]]),
                                                           rng.choice([[], [], ["98"]]), rng.random() < 0.7, ip=ip)))
                out.append({"cfg": [], "ev": ev})
            many = [line(port=4000 + 2 * i) for i in range(21)]
            for n in (19, 20, 21):
                out.append({"cfg": [], "ev": [ans("core", desc(many[:n]), core([PCMU])),
                                              ans("core", desc(many[:n]), core([PCMU], base=65520))]})
            # payload lists longer than an answer may carry, and unusable mappings
            out.append({"cfg": [], "ev": [ans("profile", desc([line(fmts=["0"] * 60, maps=[mp("0", "PCMU")])]), prof()),
                                          ans("profile", desc([line(fmts=["0", "8"], maps=[mp("0", "PCMU", 999), mp("8", "a" * 70)])]), prof()),
                                          ans("profile", desc([line(fmts=["101", "0"], maps=[mp("101", "x", 8000), mp("0", "PCMU")])]), prof(xa=["101"]))]})
        else:
            for _ in range(3000 if T else 500):
                ev = [self.start(rng)]
                for _ in range(rng.randint(2, 10)):
                    if rng.random() < 0.1:
                        ev.append(self.start(rng))
                    else:
                        ev.append({"op": rng.choice(["hold", "hold", "resume"]), "by": rng.choice("AAB"),
                                   "wish": rng.choice(["", "", ""] + DIRS)})
                out.append({"cfg": [], "ev": ev})
        return out

    def start(self, rng):
        return {"op": "start", "by": rng.choice("AB"), "dirs": [rng.choice(["", ""] + DIRS) for _ in range(rng.randint(1, 4))],
                "sdir": rng.choice(["", "", ""] + DIRS), "wish": rng.choice(["", "", "recvonly", "sendonly"]),
                "ver": rng.choice(["1", "2890844526", "18446744073709551614", "18446744073709551615", "0"])}

    def must_see(self, prop, tier):
        return ["answer:ok", "answer:err"] if prop == "O01" else ["start:ok", "hold:ok", "resume:ok"]


SUITES = [SdpOA()]
