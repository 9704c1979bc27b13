from .base import Suite
from lib import tset


def S(ev):
    return {"cfg": {"x": 0}, "ev": ev}


class Prack(Suite):
    name = "prack"
    module = "Prack"
    props = ("D05",)

    def mc(self, tier, prop):
        T = tier == "thorough"
        keys = [(1, 10, "INVITE"), (2, 10, "INVITE"), (1, 11, "INVITE")]
        a = [dict(op="reg", d=d, rseq=r, cseq=c, method=m, code=183) for d in "ab" for r, c, m in (keys if d == "a" else keys[:1])]
        a += [dict(op="prack", d=d, rseq=r, cseq=c, method=m, form=0) for d in "ab" for r, c, m in (keys if d == "a" else keys[:1])]
        a += [dict(op="prack", d="a", rseq=r, cseq=c, method=m, form=f) for r, c, m, f in
              ((3, 10, "INVITE", 0), (1, 12, "INVITE", 0), (1, 10, "UPDATE", 0), (1, 10, "INVITE", 2), (1, 10, "INVITE", 11))]
        a += [dict(op="pending", d="a"), dict(op="is", d="a", rseq=1), dict(op="rmd", d="a"), dict(op="rmp", d="a", rseq=1)]
        a += [dict(op="tick", dt=t) for t in (299999, 1, 2)]
        b = [dict(op=o, d=d) for o in ("rseq", "cur", "rrm") for d in "ab"] + [dict(op="rlen", d="a")]
        pr = ["Isolated", "KeptWaiting"]
        return [dict(module="M_Prack", emit=True, consts={"Acts": tset(a), "Depth": 5 if T else 4, "MaxNow": 700000},
                     inv=["TypeOK", "AtMostOnce"], prop=pr),
                dict(module="M_Prack", emit=True, consts={"Acts": tset(b), "Depth": 6, "MaxNow": 0},
                     inv=["TypeOK", "AtMostOnce"], prop=["Isolated"])]

    def gen(self, rng, tier, prop):
        out = []
        for _ in range(4000 if tier == "thorough" else 400):
            ev, ds, reg = [], ["a", "b", "c"], []
            big = rng.random() < 0.3
            nums = [1, 2, 3, 4] if not big else list(range(1, 16)) + [2147483647]
            for _ in range(rng.randint(10, 80 if big else 40)):
                d = rng.choice(ds[:1] if big and rng.random() < 0.8 else ds)
                r = rng.random()
                k = dict(rseq=rng.choice(nums), cseq=rng.choice([1, 2, 314159]), method=rng.choice(["INVITE", "INVITE", "UPDATE", "REFER"]))
                if r < 0.35:
                    ev.append(dict(op="reg", d=d, code=rng.choice([180, 183, 199]), **k))
                    reg.append((d, k))
                elif r < 0.65:
                    if reg and rng.random() < 0.8:
                        d2, k = rng.choice(reg[-6:])
                        d = d2 if rng.random() < 0.85 else d
                        if rng.random() < 0.2:
                            k = dict(k, **{rng.choice(["rseq", "cseq"]): rng.choice(nums)})
                    ev.append(dict(op="prack", d=d, form=rng.choice([0, 0, 0, 0, 0, 1, 1] + list(range(2, 12))), **k))
                elif r < 0.75:
                    ev.append(dict(op="pending", d=d))
                elif r < 0.80:
                    ev.append(dict(op="is", d=d, rseq=rng.choice(nums)))
                elif r < 0.83:
                    ev.append(rng.choice([dict(op="rmd", d=d), dict(op="rmp", d=d, rseq=rng.choice(nums))]))
                elif r < 0.90:
                    ev.append(dict(op="tick", dt=rng.choice([1, 1000, 100000, 150000, 299999, 300000, 300001, 600001])))
                elif r < 0.93:
                    ev.append(dict(op="rack", form=rng.randint(0, 11), **k))
                else:
                    ev.append(dict(op=rng.choice(["rseq", "rseq", "cur", "rrm", "rlen"]), d=d))
            for d in ds:
                ev.append(dict(op="pending", d=d))
            out.append(S(ev))
        for _ in range(3):
            out.append(S([dict(op="rand", n=200), dict(op="rstorm", d="a", n=200), dict(op="rseq", d="a"),
                          dict(op="rseq", d="b"), dict(op="rstorm", d="b", n=50), dict(op="cur", d="b")]))
        return out

    def must_see(self, prop, tier):
        return ["prack:ok", "prack:refused", "rseq:first", "rseq:n", "is:yes", "is:no", "rack:ok"]


class Timers(Suite):
    name = "timers"
    module = "SessionTimer"
    props = ("D06", "D07")
    NEG = ("valid", "nego", "role", "half", "senew", "minnew", "separse", "minparse")

    def owners(self, m):
        e = m["trace"]["ev"][m["i"]]
        if e["op"] == "half":
            return ("D06", "D07")
        return ("D07",) if e["op"] in self.NEG else ("D06",)

    def mc(self, tier, prop):
        T = tier == "thorough"
        if prop == "D07":
            a = [dict(op="role", p=p) for p in ("-", "uac", "uas", "UAC", "UAS", "", "x")]
            a += [dict(op="nego", se=s, lmin=l, rmin=m, pref=f) for s in (89, 90, 120, 1800) for l in (90, 91, 600)
                  for m in (-1, 90, 120, 3600) for f in (-1, 60, 90, 900, 4000)]
            a += [dict(op="valid", se=s, min=m) for s in (0, 89, 90, 119, 120) for m in (-1, 90, 120)]
            a += [dict(op=o, n=n) for o in ("senew", "minnew") for n in (0, 89, 90, 7200, 7201, 86400, 86401)]
            return [dict(module="M_SessionTimer", emit=True, consts={"Acts": tset(a), "Depth": 1, "MaxNow": 0},
                         inv=["TypeOK", "NegoOK", "Complement"])]
        a = [dict(op="start", k="a", se=s, ref=r) for s in (2000, 4002) for r in (True, False)]
        a += [dict(op="start", k="b", se=4000, ref=True)]
        a += [dict(op="refresh", k="a", se=2000, ref=True), dict(op="stop", k="a"), dict(op="clear"), dict(op="count")]
        a += [dict(op=o, k="a") for o in ("has", "left")]
        a += [dict(op="tick", dt=t) for t in (999, 1, 1000, 3000)]
        a += [dict(op=o, dt=t, what=w, k="a", se=2000, ref=True) for o in ("race", "race2") for t in (1000, 2000) for w in ("start", "stop")]
        return [dict(module="M_SessionTimer", emit=True, consts={"Acts": tset(a), "Depth": 5 if T else 4, "MaxNow": 9000},
                     inv=["TypeOK", "Exact", "Present"])]

    def gen(self, rng, tier, prop):
        n = 4000 if tier == "thorough" else 400
        out = []
        if prop == "D07":
            for _ in range(n):
                b = lambda: rng.choice([0, 1, 59, 60, 89, 90, 91, 119, 120, 121, 600, 1800, 3600, 7199, 7200, 7201, 86399, 86400, 86401, 1000000, rng.randint(0, 100000)])
                ev = []
                for _ in range(12):
                    o = rng.choice(self.NEG)
                    ev.append({"valid": lambda: dict(op=o, se=b(), min=rng.choice([-1, b()])),
                               "nego": lambda: dict(op=o, se=b(), lmin=b(), rmin=rng.choice([-1, b()]), pref=rng.choice([-1, b()])),
                               "role": lambda: dict(op=o, p=rng.choice(["-", "uac", "uas", "UAC", "UAS", "Uac", "Uas", "", "foo", "uacs"])),
                               "half": lambda: dict(op=o, ms=b()),
                               "senew": lambda: dict(op=o, n=b()), "minnew": lambda: dict(op=o, n=b()),
                               "separse": lambda: dict(op=o, n=b(), rf=rng.choice(["", "uac", "uas", "UAC", "Uas", "foo"]), form=rng.randint(0, 8)),
                               "minparse": lambda: dict(op=o, n=b(), form=rng.randint(0, 5))}[o]())
                    if ev[-1]["op"] == "separse" and ev[-1]["form"] == 1 and ev[-1]["rf"] == "":
                        ev[-1]["form"] = 0
                out.append(S(ev))
            return out
        for _ in range(n):
            ev, ks = [], ["a", "b", "c", "d"][:rng.randint(1, 4)]
            for _ in range(rng.randint(6, 40)):
                k, r = rng.choice(ks), rng.random()
                t = dict(se=rng.choice([1000, 2000, 4000, 6000, 90000, 3002, 2, 1800000]), ref=rng.random() < 0.6)
                dt = rng.choice([1, 500, 999, 1000, 1001, 1500, 2000, 3000, 45000, 90000, 1800000])
                if r < 0.35:
                    ev.append(dict(op=rng.choice(["start", "refresh"]), k=k, **t))
                elif r < 0.45:
                    ev.append(dict(op="stop", k=k))
                elif r < 0.70:
                    ev.append(dict(op="tick", dt=dt))
                elif r < 0.82:
                    ev.append(dict(op=rng.choice(["race", "race2"]), dt=dt, what=rng.choice(["start", "stop", "refresh"]), k=k, **t))
                elif r < 0.97:
                    ev.append(dict(op=rng.choice(["has", "left", "count"]), k=k))
                else:
                    ev.append(dict(op="clear"))
            ev += [dict(op="tick", dt=4000000), dict(op="count")]
            out.append(S(ev))
        out.append(S([dict(op="start", k="a", se=4000, ref=True), dict(op="fill", n=9999), dict(op="count"), dict(op="start", k="b", se=2000, ref=True),
                      dict(op="has", k="b"), dict(op="refresh", k="a", se=6000, ref=True), dict(op="has", k="a"), dict(op="left", k="a"), dict(op="tick", dt=4500), dict(op="stop", k="a"),
                      dict(op="start", k="b", se=2000, ref=False), dict(op="count"), dict(op="tick", dt=3000), dict(op="clear"), dict(op="count")]))
        return out

    def must_see(self, prop, tier):
        if prop == "D07":
            return ["nego:ok", "nego:refused", "separse:ok", "separse:refused", "minparse:ok"]
        return ["tick:events", "race:race", "race2:race", "has:yes", "has:no", "left:n"]


def sm(**k):
    m = dict(call="c1", ft="f", tt="t", cseq=5, ct="p", event="presence", exp=-1, sty=0)
    m.update(k)
    return m


def snew(x="x", notifier=False, code=200, q=None, r=None):
    return {"op": "new", "x": x, "notifier": notifier, "req": sm(**dict(dict(tt="", ct="q"), **(q or {}))),
            "resp": dict(sm(**dict(dict(event=""), **(r or {}))), code=code)}


class Subs(Suite):
    name = "subs"
    module = "Subscription"
    props = ("D08", "D04")

    def owners(self, m):
        e = m["trace"]["ev"][m["i"]]
        if e["op"] in ("new", "next", "state", "expires") or e["obs"].get("r") == "PANIC" and e["op"] in ("new", "newid", "sid"):
            return ("D08",)
        return ("D04", "D08")

    def mc(self, tier, prop):
        T = tier == "thorough"
        ids = [["c1", "f", "t", "presence"], ["c1", "f", "t", "dialog"], ["c1", "f", "t2", "presence"]]
        a = [snew("x"), snew("y", q=dict(event="dialog"), notifier=True), snew("x", r=dict(tt="t2"))]
        if prop == "D08":
            a += [snew("x", code=c) for c in (100, 180, 202, 299, 300, 489)]
            a += [snew("x", notifier=n, q=q, r=r) for n in (True, False) for q, r in
                  ((dict(exp=60), {}), (dict(exp=60), dict(exp=30)), ({}, dict(exp=0)), (dict(exp=-2), {}), ({}, dict(exp=-2)), (dict(cseq=0), {}),
                   (dict(cseq=-2), {}), (dict(ft=""), {}), ({}, dict(tt="")), ({}, dict(ct="")), (dict(event=""), {}), (dict(call=""), {}))]
        a += [dict(op="state", x=x, st=s) for x in "xy" for s in ("active", "pending", "terminated")]
        a += [dict(op="put", x=x) for x in "xy"] + [dict(op="next", x="x")]
        a += [dict(op=o, id=i) for o in ("get", "rm") for i in ids]
        a += [dict(op="load", x="x", id=ids[0]), dict(op="clean"), dict(op="all")]
        a += [dict(op="byev", event=e) for e in ("presence", "dialog", "x")]
        return [dict(module="M_Subscription", emit=True, consts={"Acts": tset(a), "Depth": 6 if T else 5},
                     inv=["TypeOK"], prop=["NoRevival", "NumbersRise", "OnlyFromSuccess", "TableExact"])]

    def gen(self, rng, tier, prop):
        out = []
        evs = ["presence", "dialog", "presence;id=1", "presence;id=2", "Presence"]
        for _ in range(4000 if tier == "thorough" else 400):
            ev, xs, ids = [], ["x", "y", "z"], []
            for _ in range(rng.randint(10, 50)):
                x, r = rng.choice(xs), rng.random()
                if r < 0.25 or not ids:
                    tag = lambda: rng.choice(["a", "b", "c"] * 4 + ["", "!"])
                    M = lambda: sm(call=rng.choice(["c1", "c2"] * 6 + [""]), ft=tag(), tt=tag(), cseq=rng.choice([1, 2, 5, 100, 2147483000] * 3 + [0, -1, -2, -3, -4]),
                                   ct=rng.choice(["p", "q", "w"] * 4 + [""]), event=rng.choice(evs * 3 + [""]), exp=rng.choice([-1, -1, 0, 60, 3600, 2147483647, -1, -2]), sty=rng.randint(0, 35))
                    e = {"op": "new", "x": x, "notifier": rng.random() < 0.5, "req": M(), "resp": dict(M(), code=rng.choice([200, 200, 200, 202, 299, 180, 100, 300, 423, 489]))}
                    ev.append(e)
                    ids.append([e["req"]["call"], e["req"]["ft"], e["resp"]["tt"], e["req"]["event"]])
                elif r < 0.45:
                    ev.append(rng.choice([dict(op="state", x=x, st=rng.choice(["active", "pending", "terminated"])), dict(op="next", x=x), dict(op="expires", x=x, n=rng.choice([0, 60, 7200]))]))
                elif r < 0.50:
                    e = dict(op="newid", c=rng.choice([1, 256, 257, 0, -1, -2, 5]), f=rng.choice([1, 128, 129, -2, 4, 5]), t=rng.choice([1, 128, 129, 0, -1, 3]), e=rng.choice([1, 64, 65, 8, 8, 0, -1]))
                    if rng.random() < 0.6:
                        e["id"] = rng.choice([0, 1, 128, 129, -1, -2])
                    ev.append(e)
                elif r < 0.53:
                    ev.append(dict(op="sid", req=sm(call=rng.choice(["c1", ""]), ft=rng.choice(["a", "", "!"]), tt=rng.choice(["a", "a", "", "!"]), event=rng.choice(evs + [""]), sty=rng.randint(0, 35))))
                elif r < 0.68:
                    ev.append(dict(op="put", x=x))
                else:
                    o = rng.choice(["get", "get", "rm", "load", "all", "byev", "clean"])
                    e = dict(op=o)
                    if o in ("get", "rm", "load"):
                        e["id"] = rng.choice(ids)
                    if o == "load":
                        e["x"] = x
                    if o == "byev":
                        e["event"] = rng.choice(evs)
                    ev.append(e)
            out.append(S(ev))
        put = lambda x: dict(op="put", x=x)
        out.append(S([snew("x"), snew("y", r=dict(tt="t2")), put("x"), dict(op="fill", n=9998), put("y"), snew("y", r=dict(tt="t3")), put("y"),
                      dict(op="state", x="x", st="terminated"), put("x"), dict(op="fill", n=3), dict(op="all"), dict(op="clean"), put("y"), put("x"), dict(op="all")]))
        for _ in range(3):
            out.append(S([snew("x"), dict(op="fill", n=9900), dict(op="storm", n=800), put("x"), dict(op="all")]))
        return out

    def must_see(self, prop, tier):
        return ["new:some", "new:none", "put:ok", "put:full", "get:some", "rm:some", "clean:n", "newid:ok", "newid:refused"]


SUITES = [Prack(), Timers(), Subs()]
