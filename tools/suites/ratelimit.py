from .base import Suite

PRESETS = {"auth": (10, 300, 3, 600), "register": (60, 3600, 10, 1800),
           "invite": (30, 60, 10, 300), "connections": (100, 60, 20, 300)}


def lim(mx, win, burst, idle, on=True, cap=100000):
    return {"max": mx, "win": win, "burst": burst, "idle": idle, "on": on, "cap": cap, "preset": False}


class RateLimit(Suite):
    name = "ratelimit"
    module = "RateLimit"
    props = ("L01", "L02")

    def mc(self, tier, prop):
        T = tier == "thorough"
        def cfgs(l):
            return "{" + ", ".join(
                f'[max |-> {m}, win |-> {w}, burst |-> {b}, idle |-> {i}, on |-> {str(on).upper()}, cap |-> 100000]'
                for m, w, b, i, on in l) + "}"
        return [dict(module="M_RateLimit", emit=True,
                     consts={"Keys": '{"a", "b"}' if T else '{"a"}', "MaxNow": 6000 if T else 4500, "Depth": 6,
                             "Ticks": "{600, 1000, 2500}" if T else "{600, 1000, 2500}",
                             "Cfgs": cfgs([(2, 2, 2, 2, True), (1, 1, 2, 1, True)])},
                     inv=["TypeOK", "RateBound", "BurstBound"], prop=["Harmless", "Independent", "Admits"]),
                dict(module="M_RateLimit", emit=False,
                     consts={"Keys": '{"a", "b"}', "MaxNow": 9000, "Depth": 9 if T else 7,
                             "Ticks": "{400, 1000, 3000}",
                             "Cfgs": cfgs([(2, 2, 2, 2, True), (3, 1, 1, 0, True), (1, 2, 0, 1, True), (0, 0, 0, 0, False)])},
                     inv=["TypeOK", "RateBound", "BurstBound"], prop=["Harmless", "Independent", "Admits"])]

    def gen(self, rng, tier, prop):
        n = 2500 if tier == "thorough" else 250
        out = []
        for _ in range(n):
            kind = rng.random()
            if kind < 0.25:
                preset = rng.random() < 0.7
                cfg = {k: dict(lim(*v), preset=preset) for k, v in PRESETS.items()}
                if not preset:
                    cfg = {k: lim(rng.randint(1, 50), rng.randint(1, 100), rng.randint(0, 5), rng.randint(0, 30)) for k in PRESETS}
            elif kind < 0.3:
                cfg = {"x": lim(0, 0, 0, 0, on=False)}
            else:
                mx = rng.choice([1, 2, 3, 5, 7, 10, 60, 100, 999, 1000, 3000])
                win = rng.choice([1, 2, 3, 10, 60, 300, 3600])
                cfg = {"x": lim(mx, win, rng.choice([0, 1, 2, 3, 5, 10, mx if mx <= 10000 else 10]),
                                rng.choice([0, 1, 5, 60, 300, 100000]), on=rng.random() > 0.05)}
            out.append(self.script(rng, cfg))
        for _ in range(40 if tier == "thorough" else 8):
            out.append(self.storm(rng))
        out.append(self.capacity(rng))
        return out

    def script(self, rng, cfg):
        ev = []
        names = list(cfg)
        keys = ["a", "b", "192.168.1.7", "2001:db8::1"]
        total = {n: 0 for n in names}
        for _ in range(rng.randint(5, 45)):
            l = rng.choice(names)
            c = cfg[l]
            iv = max(1, c["win"] * 1000 // c["max"]) if c["max"] else 1000
            k = rng.choice(keys)
            x = rng.random()
            if x < 0.45:
                ev.append({"op": "check", "l": l, "k": k})
            elif x < 0.50:
                ev.append({"op": "checks", "l": l, "k": k, "n": rng.choice([3, 20, 600, 1100])})
            elif x < 0.70:
                dt = rng.choice([1, iv // 3, iv - 1, iv, iv + 1, iv * 2, iv * 5 // 2, iv * c["burst"],
                                 c["idle"] * 1000, c["idle"] * 1000 + 1, rng.randint(1, 5 * iv)])
                ev.append({"op": "tick", "dt": max(1, min(dt, 20000000))})
            elif x < 0.75:
                ev.append({"op": "remaining", "l": l, "k": k})
            elif x < 0.82:
                ev.append({"op": "info", "l": l, "k": k})
            elif x < 0.86:
                ev.append({"op": "log", "l": l, "k": k, "min": rng.choice([0, 1, 2, 60])})
            elif x < 0.91:
                ev.append({"op": "cleanup", "l": l} if rng.random() < 0.7 else {"op": "cleanup_all"})
            elif x < 0.93:
                ev.append({"op": "bad", "l": l, "kind": rng.choice(["long", "nl", "nul", "c1"])})
            elif x < 0.95:
                ev.append({"op": "reset", "l": l, "k": k})
            elif x < 0.96:
                ev.append({"op": "clear", "l": l})
            elif x < 0.98:
                ev.append({"op": "count", "l": l})
            else:
                ev.append({"op": "metrics", "l": l})
        for l in names:
            ev += [{"op": "count", "l": l}, {"op": "metrics", "l": l}]
            ev += [{"op": "info", "l": l, "k": k} for k in keys]
        return {"cfg": cfg, "ev": ev}

    def storm(self, rng):
        cfg = {"x": lim(100, 60, rng.choice([1, 5, 50, 400]), 100000)}
        ev = []
        for _ in range(6):
            ks = rng.sample(["a", "b", "c", "d"], rng.randint(1, 3))
            ev.append({"op": "storm", "l": "x", "ks": ks, "n": 8 * rng.randint(5, 100), "threads": 8})
            ev.append({"op": "metrics", "l": "x"})
            ev += [{"op": "remaining", "l": "x", "k": k} for k in ks]
            ev.append({"op": "tick", "dt": rng.choice([100, 599, 600, 1300, 30000])})
        return {"cfg": cfg, "ev": ev}

    def capacity(self, rng):
        cfg = {"x": lim(10, 60, 2, 300)}
        C = lambda k: {"op": "check", "l": "x", "k": k}
        ev = [C("a"), {"op": "fill", "l": "x", "n": 99998}, {"op": "count", "l": "x"}, C("b"), C("c"),
              C("a"), C("a"), {"op": "fill", "l": "x", "n": 5}, C("b"), {"op": "count", "l": "x"},
              {"op": "metrics", "l": "x"}, {"op": "tick", "dt": 300000}, C("b"), C("c"), {"op": "count", "l": "x"},
              {"op": "tick", "dt": 1}, {"op": "cleanup", "l": "x"}, {"op": "count", "l": "x"}, C("c"), C("b"), C("b"), C("b"),
              {"op": "fill", "l": "x", "n": 2000}, {"op": "tick", "dt": 300001}, {"op": "fill", "l": "x", "n": 1500},
              {"op": "count", "l": "x"}, {"op": "metrics", "l": "x"}]
        return {"cfg": cfg, "ev": ev}

    def must_see(self, prop, tier):
        return ["check:allow", "check:block", "bad:block", "info:info", "storm:storm", "log:n", "log:none"]


SUITES = [RateLimit()]
