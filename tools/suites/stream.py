from lib import tset
from .base import Suite

CL = ["Content-Length: %d", "content-length:%d", "CONTENT-LENGTH : %d ", "l: %d", "L:%d", "l:00%d", "X: y\r\nContent-Length: %d", "Content-Length: %d\r\nX: l: 9", "l: %d\r\nContent-Length: %d", "Subject: a\r\n l: 7\r\nContent-Length: %d", "Subject: a\r\n\tContent-Length: 0\r\nl: %d", "l-x: 3\r\nl: %d", "Xl: 3\r\nl: %d\r\nno header at all"]
BADCL = ["X: y", "Content-Length:", "l: x", "l: -1", "l: +1", "l: 1 2", "l: 1;x", "l: 0x1", "l: 1\r\nContent-Length: 2", "l: 99999999999999999999999", "l: 10485761", "Subject: a\r\n l: 0", "Content Length: 1", "Content-Length 1", "l: 1,1"]
START = ["INVITE sip:a@b SIP/2.0", "SIP/2.0 200 OK", "l:5", "x", "REGISTER sip:l:3 SIP/2.0"]
BODY = ["", "a", "v=0\r\n", "\r\n", "\r\n\r\n", "ab\r\n\r\nl: 1\r\n\r\n", "BYE x\r\nl: 0\r\n\r\n", "\n", "0123456789"]
PING = ["\r\n\r\n", "\r\n", "\n", "\r", "\n\r\n\r"]


def op(c, side):
    return {"op": "open", "c": c, "side": side}


def sd(c, x):
    return {"op": "send", "c": c, "x": x}


def end(c):
    return {"op": "end", "c": c}


def rp(c, x):
    return {"op": "reply", "c": c, "x": x}


def wt(n):
    return {"op": "wait", "n": n}


def big(c, h, b):
    return {"op": "big", "c": c, "h": h, "b": b}


def flood(c, n):
    return {"op": "flood", "c": c, "n": n}


def crowd(n):
    return {"op": "crowd", "n": n}


def msg(start, cl, body):
    n = len(body)
    return start + "\r\n" + (cl % ((n,) * cl.count("%d"))) + "\r\n\r\n" + body


class Stream(Suite):
    name = "stream"
    module = "Stream"
    harness = "tx"
    props = ("F01",)

    def mc(self, tier, prop):
        base = dict(module="M_Stream", view="View", emit=True, inv=["TypeOK", "Chunks", "Whole"], prop=["Silent"])
        c = lambda acts, depth: dict(base, consts={"Acts": tset(acts), "Depth": depth})
        d = 1 if tier == "thorough" else 0
        out = []
        for side in ("in", "out"):
            o = op("a", side)
            one = ["A\r\n", "l: 3", "\r\n\r\nab", "c", "\r\n", "l: x", "\r"]
            out.append(c([o] + [sd("a", x) for x in one], 5 + d))
            out.append(c([o] + [sd("a", msg(s, cl, b)) for s in START[:3] for cl in CL for b in BODY[4:6]] + [sd("a", msg("A", cl, "")) for cl in BADCL], 2 + d))
            two = msg("A", "l:%d", "xy") + PING[0] + msg("B", "l:%d", "\r\n")
            out.append(c([o, sd("a", two + msg("C", "X: y", "")), sd("a", two[:-3]), sd("a", two[-3:]), sd("a", msg("A", BADCL[8], "ab")), rp("a", "pong"), rp("a", "SIP/2.0 200 OK\r\n\r\n"), end("a")], 4 + d))
        m = msg("A", "l:%d", "x")
        for sides in (("in", "in"), ("in", "out"), ("out", "out")):
            out.append(c([op(n, s) for n, s in zip("ab", sides)] + [sd(n, x) for n in "ab" for x in (m[:4], m[4:], m)] + [rp("a", "to a"), rp("b", "to b"), end("a")], 4 + d))
        out.append(c([op("a", "in"), op("b", "in"), op("o", "out"), sd("a", m), sd("b", m[:5]), sd("o", m), wt(30), wt(59), wt(60), wt(61), wt(1770), wt(1801)], 5 + d))
        return out

    # ------------------------------------------------------------ generation
    def cuts(self, rng, x):
        k = rng.choice([1, 1, 2, 3, 5, len(x)] if len(x) < 160 else [1, 2, 4, 9])
        at = sorted(rng.sample(range(1, len(x)), min(k, len(x)) - 1)) if len(x) > 1 else []
        return [x[i:j] for i, j in zip([0] + at, at + [len(x)])]

    def stream(self, rng, bad):
        x = ""
        for _ in range(rng.choice([1, 2, 3, 4])):
            if rng.random() < 0.3:
                x += rng.choice(PING)
            m = msg(rng.choice(START), rng.choice(CL), rng.choice(BODY))
            x += m[:-1] if rng.random() < bad / 8 else m
        if rng.random() < bad:
            x += msg(rng.choice(START), rng.choice(BADCL), rng.choice(BODY)) + rng.choice(["", m])
        return x

    def script(self, rng):
        names = "abcd"[:rng.choice([1, 1, 2, 3])]
        sides = {c: rng.choice(["in", "in", "out"]) for c in names}
        ev = [op(c, sides[c]) for c in names]
        bad = rng.choice([0, 0.2, 0.6])
        todo = {c: self.cuts(rng, self.stream(rng, bad)) for c in names}
        while any(todo.values()):
            c = rng.choice([c for c in names if todo[c]])
            ev.append(sd(c, todo[c].pop(0)))
            if rng.random() < 0.1:
                ev.append(rp(c, rng.choice(["x", "SIP/2.0 200 OK\r\nl: 0\r\n\r\n", "\r\n"])))
            if rng.random() < 0.05:
                ev.append(wt(rng.choice([1, 29, 59, 61])))
            if rng.random() < 0.02:
                ev.append(end(c))
        return {"cfg": [], "ev": ev + [rp(c, "bye") for c in names] + ([end(rng.choice(names))] if rng.random() < 0.3 else [])}

    def limits(self):
        out = []
        for s in ("in", "out"):
            for h, b in ((65536, 3), (65537, 3), (100, 10485760), (100, 10485761), (65535, 70000), (100, 65536)):
                out.append({"cfg": [], "ev": [op("a", s), big("a", h, b), sd("a", msg("A", "l:%d", "x")), rp("a", "ok")]})
            for n in (65000, 65537, 70000, 200000):
                out.append({"cfg": [], "ev": [op("a", s), op("b", "in"), flood("a", n), sd("b", msg("A", "l:%d", "x"))]})
        for k in (0, 1, 5):
            out.append({"cfg": [], "ev": [op("abcde"[i], "in") for i in range(k)] + [crowd(63 - k), crowd(64), crowd(66)] + [sd("abcde"[i], msg("A", "l:%d", "x")) for i in range(k)]})
        out.append({"cfg": [], "ev": [op("a", "in"), op("o", "out"), crowd(70), end("a"), crowd(64), sd("o", msg("A", "l:%d", "x"))]})
        return out

    def gen(self, rng, tier, prop):
        return self.limits() + [self.script(rng) for _ in range(12000 if tier == "thorough" else 900)]

    def must_see(self, prop, tier):
        return ["open:ok", "send:got", "end:got", "reply:back", "wait:waited", "big:big", "flood:flood", "crowd:crowd"]


SUITES = [Stream()]
