from .base import Suite
from lib import tset, tla


class Proxy(Suite):
    name = "proxy"
    module = "Proxy"
    harness = "tx"
    props = ("X01",)

    def mc(self, tier, prop):
        T = tier == "thorough"
        out = []

        def run(acts, depth, mode="par", c=180000):
            for view in (True, False):
                out.append(dict(module="M_Proxy", emit=True,
                                consts={"Acts": tset(acts), "Depth": depth if view else depth - 2, "Cfg": tla(dict(c=c, mode=mode))},
                                inv=["TypeOK", "Never100"],
                                prop=["OnlySuccesses", "EverySuccess", "FailureLast", "FailureBest", "NoneForgotten", "AllChallenges"], view=view))

        def rs(b, *codes, www=(), px=()):
            return [dict(op="resp", b=b, code=c, www=list(www), px=list(px)) for c in codes]
        q = [dict(op="cancels"), dict(op="best")]
        add = [dict(op="add", b=b) for b in "ab"]
        run(add + rs("a", 180, 200, 404, 603) + rs("b", 200, 302, 503, 603), 6 if T else 5)
        run(add + rs("a", 100, 183, 486) + [dict(op="fail", b=b) for b in "ab"] + [dict(op="wait", ms=w) for w in (90000, 180000)] + q, 6 if T else 5, "seq")
        run(add + [dict(op="add", b="c")] + rs("a", 401, www=["w1"], px=["p1"]) + rs("b", 407, px=["p2", "p1"]) + rs("c", 401, www=["w1", "w2"]) + rs("c", 400), 7 if T else 6)
        run(add + rs("a", 100, 101, 200) + rs("b", 180, 487) + [dict(op="wait", ms=w) for w in (1, 999, 1000)] + [dict(op="over")], 6 if T else 5, "none", 1000)
        return out

    def gen(self, rng, tier, prop):
        return [self.one(rng) for _ in range(6000 if tier == "thorough" else 900)] + [self.crowd(rng) for _ in range(4)]

    def crowd(self, rng):
        ev = [dict(op="add", b=f"k{i}") for i in range(52)]
        ids = [f"k{i}" for i in range(52)]
        rng.shuffle(ids)
        for b in ids:
            ev.append(dict(op="resp", b=b, code=rng.choice([302, 401, 404, 500]), n=len(ev), www=[f"w{b}"], px=[]))
        return {"cfg": dict(c=180000, mode="par"), "ev": ev}

    def one(self, rng):
        c = rng.choice([180000, 180000, 1000, 5000, 200001])
        ev, bs = [], []
        heavy = rng.choice([None, None, 2, 4, 6])
        for _ in range(rng.randint(5, 30)):
            r = rng.random()
            if not bs or r < 0.15:
                b = f"{rng.choice('abC')}{len(bs)}"
                bs.append(b)
                ev.append(dict(op="add", b=b))
            elif r < 0.72:
                b = rng.choice(bs) if rng.random() < 0.95 else rng.choice(["zz", bs[0] + "0", bs[-1].swapcase()])
                k = rng.random()
                code = rng.choice([100, 101, 180, 183, 199]) if k < 0.35 else rng.choice([200, 202, 299, 300, 302, 399, 400, 401, 401, 404, 407, 407, 408, 480, 486, 487, 499, 500, 503, 599, 600, 603, 699])
                if code >= 200 and heavy and rng.random() < 0.8:
                    code = heavy * 100 + rng.choice([0, 1, 1, 4, 7])
                ch = lambda p: [f"Digest realm={p}{i}" for i in rng.sample(range(4), rng.choice([0, 1, 1, 2]))]
                w = code in (401, 407) or rng.random() < 0.05
                e = dict(op="resp", b=b, code=code, n=len(ev) + 1, www=ch("w") if w else [], px=ch("p") if w and (code == 407 or rng.random() < 0.3) else [])
                ev.append(e)
                if rng.random() < 0.2:
                    ev.append(dict(e) if rng.random() < 0.6 else dict(e, n=len(ev) + 1))
            elif r < 0.80:
                ev.append(dict(op="fail", b=rng.choice(bs + ["zz"])))
            elif r < 0.92:
                d = rng.choice([c, c - 1, 1, c // 2, c + 1, rng.randint(1, 2 * c)])
                ev.append(dict(op="wait", ms=d))
            else:
                ev.append(dict(op=rng.choice(["cancels", "cancels", "best", "over"])))
            if ev[-1]["op"] == "best" and any(e["op"] == "resp" and e["code"] // 100 == 6 for e in ev) and any(e["op"] == "resp" and e["code"] // 100 == 2 for e in ev):
                ev.pop()
        ev.append(dict(op="wait", ms=3 * c))
        ev.append(dict(op="cancels"))
        return {"cfg": dict(c=c, mode=rng.choice(["par", "seq", "none"])), "ev": ev}

    def must_see(self, prop, tier):
        return ["add:ok", "add:over", "add:full", "resp:ok", "fail:ok", "wait:ok", "cancels:ok"]
SUITES = [Proxy()]
