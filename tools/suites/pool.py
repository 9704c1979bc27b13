from lib import tset, tla
from .base import Suite


def up(p):
    return {"op": "up", "p": p}


def down(p):
    return {"op": "down", "p": p}


def send(p, *xs, conc=False):
    return {"op": "send", "p": p, "xs": list(xs), "conc": conc}


def close(p):
    return {"op": "close", "p": p}


def wt(n):
    return {"op": "wait", "n": n}


def stall(p, q):
    return {"op": "stall", "p": p, "q": q}


CLEAN = {"op": "clean"}


def cfg(mx, idle=300, ka=0):
    return {"max": mx, "idle": idle, "ka": ka}


class Pool(Suite):
    name = "pool"
    module = "Pool"
    harness = "tx"
    props = ("F02",)

    def mc(self, tier, prop):
        d = 1 if tier == "thorough" else 0
        base = dict(module="M_Pool", view="View", emit=True, inv=["TypeOK", "Delivered", "InOrder"], prop=["OneEach", "Reason", "Announced"])
        c = lambda cf, acts, depth: dict(base, consts={"Acts": tset(acts), "Depth": depth, "Cfg": tla(cf)})
        ps = "xyz"
        out = [c(cfg(2), [up(p) for p in ps] + [send(p, p + "1") for p in ps] + [wt(1), close("x")], 6 + d)]
        out.append(c(cfg(1, 10), [up("x"), up("y"), send("x", "a"), send("y", "b"), wt(10), wt(1), CLEAN, down("y")], 6 + d))
        out.append(c(cfg(5, 30, 9900), [up("x"), send("x", "a"), send("x", "b", "c"), wt(5), wt(20), wt(31), CLEAN, close("x")], 5 + d))
        out.append(c(cfg(9), [up("x"), send("x", "a"), send("x", "b", "c", "d", conc=True), send("x", "e", "f"), close("x"), down("x")], 5 + d))
        out.append(c(cfg(0), [up("x"), send("x", "a"), CLEAN], 3))
        return out

    # ------------------------------------------------------------ generation
    def script(self, rng):
        ps = ["p%d" % i for i in range(rng.choice([1, 2, 3, 5]))]
        cf = cfg(rng.choice([1, 2, 3, 4, 50]), rng.choice([5, 30, 300]), rng.choice([0, 0, 4900, 94900]))
        roomy = cf["max"] == 50
        ev = [up(p) for p in ps if rng.random() < 0.9]
        k = 0
        for _ in range(rng.choice([4, 8, 12, 16])):
            p = rng.choice(ps)
            x = rng.random()
            if x < 0.55:
                n = rng.choice([1, 1, 2, 3, 4])
                xs = ["m%d;" % (k + i) for i in range(n)]
                k += n
                ev.append(send(p, *xs, conc=roomy and n > 1 and rng.random() < 0.6))
            elif x < 0.65:
                ev.append(close(p))
            elif x < 0.7:
                ev.append(down(p))
            elif x < 0.75:
                ev.append(up(p))
            elif x < 0.93:
                ev.append(wt(rng.choice([1, 2, 4, 5, 6] + [30, 31] * (cf["idle"] <= 30 and cf["ka"] != 4900) + [96, 200] * (cf["ka"] == 94900))))
            else:
                ev.append(CLEAN)
        return {"cfg": cf, "ev": ev}

    def large(self, rng):
        # eviction by tenths, with ties and different ages
        mx = rng.choice([9, 10, 19, 20, 21])
        ps = ["p%d" % i for i in range(mx + 2)]
        ev = [up(p) for p in ps]
        for p in ps[:mx]:
            ev.append(send(p, "a"))
            ev += [wt(1)]
        for p in rng.sample(ps[:mx], mx // 2):
            ev += [send(p, "b"), wt(1)]
        for p in ps[mx:] + rng.sample(ps, 2):
            ev += [send(p, "c"), wt(1)]
        return {"cfg": cfg(mx, rng.choice([mx, mx + 2, 300])), "ev": ev}

    def gen(self, rng, tier, prop):
        t = tier == "thorough"
        st = [{"cfg": cfg(5), "ev": [up("x"), up("y"), send("x", "a"), send("y", "b"), stall("x", q), send("x", "c", "d"), stall("y", "x"), send("x", "e")]} for q in "xy" for _ in range(2)]
        return st + [self.large(rng) for _ in range(40 if t else 10)] + [self.script(rng) for _ in range(8000 if t else 700)]

    def must_see(self, prop, tier):
        return ["up:up", "down:down", "send:sent", "close:close", "wait:waited", "clean:clean", "stall:stall"]


SUITES = [Pool()]
