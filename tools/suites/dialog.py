from .base import Suite
from lib import tset

METHODS = ["INVITE", "BYE", "INFO", "OPTIONS", "UPDATE", "MESSAGE", "PRACK", "REFER", "NOTIFY", "SUBSCRIBE", "CANCEL", "REGISTER"]


def msg(**k):
    m = dict(call="c1", ft="f", tt="t", cseq=5, method="INVITE", ct="", rr=[], se=-1, rf="", sty=0)
    m.update(k)
    return m


def rq(**k):
    return msg(**k)


def rs(code, **k):
    return dict(msg(**k), code=code)


def new(x="x", uac=True, code=180, sips="", q=None, r=None):
    # the route set and contact of a request and of its response differ
    return {"op": "new", "x": x, "uac": uac, "sips": sips,
            "req": msg(**dict(dict(ct="qa", rr=[["q1", "q2"], ["q3"]]), **(q or {}))),
            "resp": rs(code, **dict(dict(ct="ra", rr=[["r1"], ["r2", "r3"]]), **(r or {})))}


def back(uac, **k):
    """Tags of a request from the peer."""
    return dict(dict(ft="t", tt="f") if uac else dict(ft="f", tt="t"), **k)


class Dialog(Suite):
    name = "dialog"
    module = "Dialog"
    props = ("D01", "D02", "D03", "D04", "D07")

    def acts(self, prop, T):
        R = lambda **k: {"op": "req", "x": "x", "req": msg(**dict(dict(ft="t", tt="f"), **k))}
        P = lambda code, **k: {"op": "resp", "x": "x", "resp": rs(code, **k)}
        end = [{"op": o, "x": "x"} for o in ("confirm", "terminate", "next")]
        if prop == "D01":
            a = [new(uac=False, code=c, q=dict(cseq=n)) for c in (180, 200) for n in (5, 0, -2, -1)]
            a += [new(uac=True, code=200)]
            nums = [-3, -2, -1, 0, 1, 4, 5, 6, 7, 1004, 1005, 1006, 1007, 2147483647]
            if not T:
                nums = [-3, -2, -1, 0, 4, 5, 6, 1005, 1006, 2147483647]
            a += [R(method=m, cseq=n) for m in ("BYE", "ACK") for n in nums]
            a += [R(method=m, cseq=6, ct="p") for m in METHODS]
            a += [{"op": "terminate", "x": "x"}]
            return a, 6 if T else 5
        if prop == "D02":
            a = [new(uac=u, code=c) for u in (True, False) for c in (100, 183, 200, 299, 300, 486)]
            a += [new(r=r) for r in (dict(tt=""), dict(ft=""), dict(tt="!"), dict(ft="!"), dict(call=""))]
            a += [P(c, method=m) for m in ("INVITE", "PRACK", "UPDATE", "BYE") for c in (100, 180, 199, 200, 202, 299, 300, 404, 487, 600)]
            a += [P(c, method="INVITE", se=s, rf=r) for c in (183, 200, 422) for s, r in ((90, "uac"), (86400, "uas"), (89, "uac"), (86401, ""), (600, ""))]
            a += [R(method=m, cseq=n) for m in ("BYE", "INVITE", "ACK") for n in (5, 6)]
            a += end + [{"op": "setse", "x": "x", "n": n} for n in (-1, 0, 89, 90, 86400, 86401)]
            a += [{"op": "needs", "x": "x", "n": n} for n in (59, 60, 399, 400, 100000)]
            return a, 5 if T else 4
        if prop == "D03":
            a = [new(uac=u, code=c, sips=s) for u in (True, False) for c in (180, 200) for s in ("", "l", "r")]
            a += [new(uac=u, q=dict(ct="", rr=[]), r=dict(ct="", rr=[])) for u in (True, False)]
            a += [new(uac=u, q=dict(rr=[], rrn=n), r=dict(rr=[], rrn=n)) for u in (True, False) for n in (50, 51)]
            a += [P(c, method=m, ct=ct, rr=rr) for c in (180, 200, 302) for m in ("INVITE", "UPDATE", "BYE")
                  for ct in ("", "p") for rr in ([], [["z1", "z2"]])]
            a += [P(200, method="INVITE", ct="q", rrn=n) for n in (2, 50, 51)]
            a += [R(method=m, cseq=n, ct="w", rr=[["y1"]]) for m in ("INVITE", "UPDATE", "BYE", "ACK", "NOTIFY", "INFO") for n in (5, 6)]
            a += end[:2]
            return a, 5 if T else 4
        if prop == "D07":
            a = [new(uac=u, code=c, r=dict(se=s, rf=r)) for u in (True, False) for c in (180, 200) for s, r in ((89, "uac"), (90, "uas"), (86400, ""), (86401, "uac"))]
            a += [P(c, method=m, se=s, rf=r) for c in (183, 200, 422, 500) for m in ("INVITE", "UPDATE") for s, r in ((90, "uac"), (1800, "uas"), (89, ""), (86401, ""), (-1, ""))]
            a += [{"op": "setse", "x": "x", "n": n} for n in (-1, 0, 89, 90, 86400, 86401)]
            a += [{"op": "needs", "x": "x", "n": n} for n in (59, 60, 1199, 1200, 57599, 57600)] + end[1:2]
            return a, 5 if T else 4
        ids = [["c1", "f", "t"], ["c1", "f", "t2"], ["c2", "f", "t"]]
        a = [new("x", code=c) for c in (180, 200)] + [new("y", code=180, r=dict(tt="t2"))]
        a += [{"op": "terminate", "x": "x"}, {"op": "confirm", "x": "y"}]
        a += [{"op": o, "x": x} for o in ("mput", "sput") for x in ("x", "y")]
        a += [{"op": o, "id": i} for o in ("mget", "sget", "mrm", "srm") for i in (ids[:2] if not T else ids)]
        a += [{"op": "mload", "x": "x", "id": ids[0]}, {"op": "mclean"}, {"op": "mids"}, {"op": "mcount"}, {"op": "slen"}]
        a += [{"op": o, "call": c} for o in ("mcall", "slist") for c in ("c1", "c2")]
        a += [{"op": "mfind", "req": msg(ft=f, tt=t)} for f, t in (("t", "f"), ("f", "t"), ("t2", "f"), ("t", ""))]
        a += [{"op": "matches", "x": "x", "req": msg(call=c, ft=f, tt=t)} for c, f, t in
              (("c1", "t", "f"), ("c1", "f", "t"), ("c2", "t", "f"), ("c1", "t2", "f"), ("c1", "t", ""), ("", "t", "f"))]
        return a, 7 if T else 6

    def mc(self, tier, prop):
        T = tier == "thorough"
        a, depth = self.acts(prop, T)
        inv = ["TypeOK", "InOrder"]
        pr = ["RefusedChangesNothing", "AckHarmless", "Forward", "EndIsEnd", "OnlyInviteConfirms", "RouteFixed",
              "TargetRefresh", "IdentityFixed", "TableExact"]
        return [dict(module="M_Dialog", emit=True, consts={"Acts": tset(a), "Depth": depth}, inv=inv, prop=pr)]

    def gen(self, rng, tier, prop):
        n = 3000 if tier == "thorough" else 400
        out = [self.script(rng) for _ in range(n)]
        if prop == "D04":
            out += self.bulk(rng, tier)
        if prop == "D03":
            out += [self.routes(rng) for _ in range(100)]
        return out

    def message(self, rng, calls=("c1", "c2"), cseq=None, method=None):
        tag = lambda: rng.choice(["a", "b", "c", "a", "b", "c", "a", "b", "", "!"])
        m = msg(call=rng.choice(list(calls) * 6 + [""]), ft=tag(), tt=tag(),
                cseq=rng.choice([1, 2, 5, 100, 2147483000, 2147483647, 0, -1, -2, -3, -4]) if cseq is None else cseq,
                method=method or rng.choice(METHODS + ["ACK"]), ct=rng.choice(["", "p", "q", "w"]),
                rr=[[f"h{rng.randint(1, 9)}" for _ in range(rng.randint(1, 3))] for _ in range(rng.choice([0, 0, 1, 2, 3]))],
                sty=rng.randint(0, 35))
        if rng.random() < 0.3:
            m["se"] = rng.choice([0, 89, 90, 91, 600, 1800, 86400, 86401, 100000])
            m["rf"] = rng.choice(["", "uac", "uas"])
        return m

    def script(self, rng):
        """A random history of dialogs that share tags and Call-IDs."""
        ev, xs = [], ["x", "y", "z"]
        D = {}
        for _ in range(rng.randint(10, 60)):
            x = rng.choice(xs)
            r = rng.random()
            if r < 0.12 or x not in D:
                uac = rng.random() < 0.5
                q = self.message(rng, method="INVITE", cseq=rng.choice([1, 5, 100, 2147483000, 5, 1, 0, -1, -2, -3]))
                w = dict(self.message(rng, method="INVITE", cseq=q["cseq"]), code=rng.choice([100, 180, 183, 200, 200, 202, 199, 299, 300, 486]))
                if rng.random() < 0.7:
                    w.update(call=rng.choice(["c1", "c2"]), ft=rng.choice("abc"), tt=rng.choice("abc"))
                ev.append({"op": "new", "x": x, "uac": uac, "sips": rng.choice(["", "", "l", "r", "lr"]), "req": q, "resp": w})
                D[x] = dict(w, uac=uac, rc=max(0, 0 if uac else q["cseq"]))
            elif r < 0.42:
                d = D[x]
                n = max(0, d["rc"] + rng.choice([0, 1, 1, 1, 2, 5, 999, 1000, 1001, -1, 1, 1, 1]))
                if rng.random() < 0.05:
                    n = rng.choice([-1, -2, -3, -4, 2147483647])
                me = rng.choice(METHODS + ["ACK", "ACK", "BYE"])
                if me == "ACK" and rng.random() < 0.7:
                    n = d["rc"]
                m = self.message(rng, cseq=min(n, 2147483647), method=me)
                if rng.random() < 0.8:
                    m.update(call=d["call"], ft=d["tt"] if d["uac"] else d["ft"], tt=d["ft"] if d["uac"] else d["tt"])
                ev.append({"op": "req", "x": x, "req": m})
                if me != "ACK" and n > d["rc"] and (d["rc"] == 0 or n - d["rc"] <= 1000):
                    d["rc"] = n
            elif r < 0.62:
                ev.append({"op": "resp", "x": x, "resp": dict(self.message(rng), code=rng.choice([100, 180, 183, 200, 200, 202, 302, 408, 487, 603]))})
            elif r < 0.66:
                ev.append({"op": rng.choice(["confirm", "next", "next", "terminate", "next"]), "x": x})
            elif r < 0.70:
                ev.append(rng.choice([{"op": "setse", "x": x, "n": rng.choice([-1, 0, 89, 90, 600, 86400, 86401])},
                                      {"op": "needs", "x": x, "n": rng.choice([0, 59, 60, 61, 400, 1199, 1200, 57600, 86400])}]))
            elif r < 0.74:
                ev.append(rng.choice([{"op": "newid", "c": rng.choice([0, 1, 256, 257, -1, -2]), "l": rng.choice([1, 128, 5, 0, 129, -2]), "t": rng.choice([1, 128, 129, -1, 3])},
                                      {"op": "ids", "req": self.message(rng), "resp": dict(self.message(rng), code=200)}]))
            else:
                did = [rng.choice(["c1", "c2"]), rng.choice("abc"), rng.choice("abc")]
                if rng.random() < 0.6 and D[x]["ft"] not in ("", "!") and D[x]["tt"] not in ("", "!"):
                    d = D[x]
                    did = [d["call"], d["ft"], d["tt"]] if d["uac"] else [d["call"], d["tt"], d["ft"]]
                o = rng.choice(["mput", "mput", "sput", "sput", "mget", "sget", "mload", "mrm", "srm", "mcall", "slist",
                                "mids", "mcount", "slen", "mclean", "mfind", "matches"])
                e = {"op": o}
                if o in ("mput", "sput", "mload", "matches"):
                    e["x"] = x
                if o in ("mget", "sget", "mload", "mrm", "srm"):
                    e["id"] = did
                if o in ("mcall", "slist"):
                    e["call"] = did[0]
                if o in ("mfind", "matches"):
                    e["req"] = self.message(rng)
                    if rng.random() < 0.7:
                        e["req"].update(call=did[0], ft=did[2], tt=did[1])
                ev.append(e)
        return {"cfg": {"x": 0}, "ev": ev}

    def routes(self, rng):
        """Route sets up to and beyond the limit, in all line groupings."""
        n = rng.choice([0, 1, 2, 5, 49, 50, 51, 60])
        hops, lines = [f"h{k}" for k in range(n)], []
        while hops:
            k = rng.randint(1, 5)
            lines.append(hops[:k])
            hops = hops[k:]
        uac = rng.random() < 0.5
        ev = [new("x", uac, rng.choice([180, 200]), q=dict(rr=lines if not uac else [["no"]], sty=rng.randint(0, 35)),
                  r=dict(rr=lines if uac else [["no"]], sty=rng.randint(0, 35)))]
        ev += [{"op": "resp", "x": "x", "resp": rs(rng.choice([183, 200, 200, 404]), method=rng.choice(["INVITE", "INVITE", "UPDATE"]),
                ct=rng.choice(["", "p"]), rr=rng.choice([[], [["u", "v"], ["w"]], lines]))} for _ in range(4)]
        return {"cfg": {"x": 0}, "ev": ev}

    def bulk(self, rng, tier):
        E = [new("x", code=180, r=dict(call="c9")), new("y", code=180, r=dict(call="c9", tt="t2")), new("z", code=200, r=dict(tt="t3"))]
        put = lambda o, x: {"op": o, "x": x}
        yield_ = [{"op": "mcount"}, {"op": "slen"}]
        one = E + [put("mput", "x"), {"op": "mfill", "n": 98, "call": "c9", "st": "early"}, put("mput", "x"),
                   {"op": "mfill", "n": 3, "call": "c9", "st": "early"}, put("mput", "y"), put("mput", "x"),
                   {"op": "mfill", "n": 2, "call": "c9", "st": "conf"}, {"op": "mcount"},
                   {"op": "mrm", "id": ["c9", "f", "t"]}, put("mput", "y"), put("mput", "x"), put("mput", "z")] + yield_
        two = E + [put("mput", "x"), {"op": "mfill", "n": 9990, "call": "*", "st": "conf"}, {"op": "mfill", "n": 5, "call": "*", "st": "term"},
                   put("mput", "y"), {"op": "mfill", "n": 20, "call": "*", "st": "early"}, put("mput", "z"), put("mput", "x"),
                   {"op": "terminate", "x": "x"}, put("mput", "x"), {"op": "mget", "id": ["c9", "f", "t"]}, {"op": "mcount"}, {"op": "mclean"}, {"op": "mcount"},
                   put("mput", "z"), {"op": "mids"}, {"op": "mstorm", "n": 800, "call": "*", "st": "conf"}, {"op": "mcount"}]
        out = [one, two]
        for k in range(6 if tier == "thorough" else 3):
            st = rng.choice(["early", "conf"])
            pre = rng.choice([0, 40, 96])
            out.append(E + [{"op": "mfill", "n": pre, "call": "c9", "st": "early"}, {"op": "mstorm", "n": 400, "call": "c9", "st": st},
                            {"op": "mcount"}, put("mput", "x")])
        # the hard limit under concurrency
        out.append([{"op": "mfill", "n": 9900, "call": "*", "st": "conf"}, {"op": "mstorm", "n": 1600, "call": "*", "st": "conf"}, {"op": "mcount"}])
        out.append(E + [put("sput", "x"), {"op": "sfill", "n": 99998}, put("sput", "y"), put("sput", "z"), {"op": "slen"},
                        {"op": "confirm", "x": "x"}, put("sput", "x"), {"op": "sget", "id": ["c9", "f", "t"]}, {"op": "slist", "call": "c9"},
                        {"op": "srm", "id": ["c9", "f", "t2"]}, put("sput", "z"), {"op": "slist", "call": "c9"}, {"op": "slist", "call": "c1"}, {"op": "slen"}])
        return [{"cfg": {"x": 0}, "ev": e} for e in out]

    TABLE = ("mput", "mget", "mload", "mfind", "mrm", "mcall", "mcount", "mclean", "mids", "mfill", "mstorm",
             "sput", "sget", "srm", "slist", "slen", "sfill", "newid", "ids", "matches")

    def owners(self, m):
        e = m["trace"]["ev"][m["i"]]
        if e["op"] in self.TABLE:
            return ("D04",)
        if e["obs"].get("r") in ("PANIC", "HANG") or m["kind"] != "observation":
            return self.props
        if e["op"] in ("setse", "needs"):
            return ("D02", "D07")
        if e["op"] == "next":
            return ("D01", "D02")
        # compare with the closest allowed outcome
        o, out = e["obs"], set()
        for w in m["want"]:
            if o.get("r") != w.get("r"):
                out |= {"D01", "D02"} if e["op"] == "req" else {"D02", "D03", "D01"}
                if e["op"] == "new":
                    out.add("D04")
            a, b = o.get("d"), w.get("d")
            if a and b:
                for k in a:
                    if a[k] != b.get(k):
                        out |= {"rc": {"D01"}, "ack": {"D01"}, "lc": {"D01", "D02"}, "st": {"D02"}, "se": {"D02", "D07"}, "rf": {"D02", "D07"},
                                "rs": {"D03"}, "tgt": {"D03"}, "sec": {"D03"}, "lu": {"D03"}, "ru": {"D03"},
                                "id": {"D02", "D04"}, "uac": {"D02"}}[k]
        return tuple(out) or self.props

    def must_see(self, prop, tier):
        base = ["new:some", "new:none", "req:ok", "req:refused", "resp:some"]
        return base + {"D04": ["mput:ok", "mput:full", "mfind:some", "mcall:some", "slist:list"]}.get(prop, [])


SUITES = [Dialog()]
