from .base import Suite
from lib import tset, tla

CFG = dict(t1=500, t2=4000, t4=5000, maxc=100, maxs=100)


def tg(*ts):
    return [dict(to=t[0], tr=t[1]) for t in ts]


class Transaction(Suite):
    name = "transaction"
    module = "Transaction"
    harness = "tx"
    props = ("T01", "T02", "T03")

    def mc(self, tier, prop):
        T = tier == "thorough"
        inv = ["TypeOK", "OneOutcome"]
        pr = ["SilentAfter", "Acked1", "Isolated", "OneFinal"]
        out = []

        def run(cfg, acts, depth, emit=True):
            out.append(dict(module="M_Transaction", emit=emit, consts={"Acts": tset(acts), "Depth": depth, "Cfg": tla(dict(CFG, **cfg))},
                            inv=inv, prop=pr, view=True))
            if emit:
                out.append(dict(module="M_Transaction", consts={"Acts": tset(acts), "Depth": depth - (2 if depth > 4 else 1), "Cfg": tla(dict(CFG, **cfg))},
                                inv=inv, prop=pr, view=False))

        def resp(m, b, *codes):
            return [dict(op="resp", b=b, m=m, code=c, rel=False) for c in codes]
        if prop == "T01":
            for tr in ("UDP", "TLS"):
                run({}, [dict(op="start", b="b", m="INVITE", tgt=tg(("x", tr)))] + resp("INVITE", "b", 180, 200, 486)
                    + [dict(op="resp", b="b", m="INVITE", code=183, rel=True)]
                    + [dict(op="wait", ms=w) for w in (500, 1500, 30000)] + [dict(op="fail", to="x", on=o) for o in (True, False)], 7 if T else 5)
                run({}, [dict(op="start", b="b", m="OPTIONS", tgt=tg(("x", tr)))] + resp("OPTIONS", "b", 100, 200, 486)
                    + [dict(op="wait", ms=w) for w in (500, 1500, 5000, 30000)] + [dict(op="fail", to="x", on=o) for o in (True, False)], 7 if T else 5)
            run({}, [dict(op="start", b="b", m=m, tgt=tg(("x", "UDP"), ("y", "UDP"), ("z", "UDP"))) for m in ("INVITE", "MESSAGE")]
                + [dict(op="fail", to=p, on=o) for p in "xyz" for o in (True, False)] + [dict(op="wait", ms=500)] + resp("INVITE", "b", 404), 6 if T else 5)
        if prop == "T02":
            for tr in ("UDP", "TCP"):
                for m in ("INVITE", "MESSAGE"):
                    a = [dict(op="req", b="b", m=m, to="p", tr=tr)]
                    a += [dict(op="sendp", b="b", m=m, code=180)] + [dict(op="sendf", b="b", m=m, code=c) for c in (200, 486)]
                    if m == "INVITE":
                        a += [dict(op="req", b="b", m="ACK", to="p", tr=tr), dict(op="ack", b="b", m="INVITE"), dict(op="req", b="b", m="CANCEL", to="p", tr=tr)]
                    a += [dict(op="wait", ms=w) for w in (500, 5000, 32000)] + [dict(op="fail", to="p", on=o) for o in (True, False)]
                    run({}, a, 7 if T else 5)
        if prop == "T03":
            a = [dict(op="start", b=b, m=m, tgt=tg(("x", "UDP"))) for b in "bc" for m in ("INVITE", "BYE")]
            a += [dict(op="resp", b=b, m=m, code=c, rel=False) for b in "bc" for m in ("INVITE", "BYE") for c in (180, 500)]
            a += [dict(op="wait", ms=5000)]
            run(dict(maxc=2), a, 5 if T else 4)
            run(dict(maxc=1), a[:2] + a[4:8] + a[-1:], 5 if T else 4)
            a = [dict(op="req", b=b, m=m, to="p", tr="UDP") for b in "bc" for m in ("INVITE", "BYE", "ACK", "CANCEL")]
            a += [dict(op="sendf", b=b, m=m, code=404) for b in "bc" for m in ("INVITE", "BYE")] + [dict(op="wait", ms=32000)]
            run(dict(maxs=2), a, 5 if T else 4)
            run(dict(maxs=3), a, 5 if T else 4)
        return out

    def gen(self, rng, tier, prop):
        return [self.one(rng, prop) for _ in range(6000 if tier == "thorough" else 700)]

    def one(self, rng, prop):
        t1, t2, t4 = rng.choice([(500, 4000, 5000)] * 3 + [(100, 400, 500), (200, 1000, 5000), (1000, 4000, 3000), (300, 5000, 777)])
        lim = 100 if prop != "T03" or rng.random() < 0.3 else rng.randint(1, 4)
        cfg = dict(t1=t1, t2=t2, t4=t4, maxc=lim, maxs=lim if rng.random() < 0.6 else 100)
        ev, cs, ss, nb = [], [], [], [0]
        ms = ["INVITE", "INVITE", "INVITE", "OPTIONS", "REGISTER", "MESSAGE", "BYE", "SUBSCRIBE"]
        trs = ["UDP", "UDP", "UDP", "TCP", "TLS", "WS", "WSS", "SCTP", "TLS-SCTP"]
        peers = ["x", "y", "z"]
        side = {"T01": 0.95, "T02": 0.05, "T03": 0.5}[prop]
        maxn = 1 if prop != "T03" and rng.random() < 0.5 else rng.randint(2, 6)

        def start():
            nb[0] += 1
            b = f"b{nb[0]}"
            m = rng.choice(ms)
            if cs and rng.random() < 0.3:
                b0, m0 = rng.choice(cs)
                if (b0, "CANCEL") not in cs and m0 == "INVITE":
                    b, m = b0, "CANCEL"
            n = rng.choice([1, 1, 1, 2, 3])
            tr = rng.choice(trs)
            tgt = [dict(to=p, tr=tr if rng.random() < 0.8 else rng.choice(trs)) for p in rng.sample(peers, n)]
            cs.append((b, m))
            ev.append(dict(op="start", b=b, m=m, tgt=tgt, n=len(ev)))

        def req():
            if ss and rng.random() < 0.6:
                b, m, to, tr = rng.choice(ss[-4:])
                if m == "INVITE" and rng.random() < 0.4:
                    m = rng.choice(["CANCEL", "ACK", "ACK"])
                    if m == "CANCEL":
                        ss.append((b, m, to, tr))
                ev.append(dict(op="req", b=b, m=m, to=to, tr=tr, n=len(ev)))
                return
            if len(ss) >= maxn * 2:
                return
            nb[0] += 1
            x = (f"b{nb[0]}" if not cs or rng.random() < 0.9 else rng.choice(cs)[0], rng.choice(ms + ["ACK"]), rng.choice(peers), rng.choice(trs))
            if x[1] != "ACK":
                ss.append(x)
            ev.append(dict(op="req", b=x[0], m=x[1], to=x[2], tr=x[3], n=len(ev)))
        for _ in range(rng.randint(6, 35)):
            r = rng.random()
            if r < 0.35:
                d = rng.choice([t1, 2 * t1, 3 * t1, t2, t4, 32000, 64 * t1, 64 * t1, t1 * rng.randint(1, 70), rng.randint(1, 40000)])
                for w in rng.choice([(d,), (d - 1, 1), (d - 1, 1, 1), (d + 1,)]):
                    if w > 0:
                        ev.append(dict(op="wait", ms=w))
            elif r < 0.42:
                ev.append(dict(op="fail", to=rng.choice(peers), on=rng.random() < 0.55))
            elif rng.random() < side:
                if not cs or (len(cs) < maxn and rng.random() < 0.3):
                    start()
                else:
                    b, m = rng.choice(cs[-4:])
                    if rng.random() < 0.08:
                        m = rng.choice(ms)
                    if rng.random() < 0.05:
                        b = rng.choice([b + "x", b[:-1] or "q", "B" + b[1:]])
                    code = rng.choice([100, 180, 183, 199, 200, 202, 299, 300, 302, 401, 404, 408, 486, 500, 503, 600, 603, 699])
                    if rng.random() < 0.4:
                        code = rng.choice([100, 180])
                    ev.append(dict(op="resp", b=b, m=m, code=code, rel=100 < code < 200 and rng.random() < 0.3, n=len(ev)))
            elif not ss or rng.random() < 0.35:
                req()
            else:
                b, m, to, tr = rng.choice(ss[-4:])
                k = rng.random()
                if k < 0.3:
                    ev.append(dict(op="sendp", b=b, m=m, code=rng.choice([100, 180, 183]), n=len(ev)))
                elif k < 0.65:
                    ev.append(dict(op="sendf", b=b, m=m, code=rng.choice([200, 202, 300, 404, 486, 487, 500, 603]), n=len(ev)))
                elif m == "INVITE" and k < 0.9:
                    ev.append(dict(op="ack", b=b, m=m) if rng.random() < 0.5 else dict(op="req", b=b, m="ACK", to=to, tr=tr, n=len(ev)))
                else:
                    ev.append(dict(op="req", b=b, m=m, to=to, tr=tr, n=len(ev)))
        ev.append(dict(op="wait", ms=100000))
        return {"cfg": cfg, "ev": ev}

    def must_see(self, prop, tier):
        return {"T01": ["start:ok", "resp:ok"], "T02": ["req:ok", "ack:yes", "ack:no"], "T03": ["start:ok", "req:ok"]}[prop]
SUITES = [Transaction()]
