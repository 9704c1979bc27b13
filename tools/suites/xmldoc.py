import xml.etree.ElementTree as ET

from lib import tset
from .base import Suite

ENTS = ["pres:alice@example.com", "sip:a@b", "a&b<c>\"d\"'e'", "x", "e" * 512]
BADENTS = ["", "e" * 513, "a\tb", "a\r\nb"]
IDS = ["t1", "bs35r9", "a\"b", "<id>", "a'b&amp;", "]]>", " id ", "i" * 128, "id=\"x\""]
BADIDS = ["", "i" * 129, "a\tb", "a\nb"]
TEXTS = ["hello", "", " x ", "I'm <b>out</b> & \"away\"", "</note><tuple id=\"evil\"/>", "&lt;", "&#60;", "a>b", "<note>", "</tuple>", "<!-- -->", "t" * 512, "--", "&unknown;", "&", ";"]
BADTEXTS = ["t" * 513, "a\tb", "a\r\nb"]
TIMES = ["2025-01-21T10:00:00Z", "", "<t>", "t" * 64]
BADTIMES = ["t" * 65, "a\nb"]
URIS = ["sip:alice@example.com", "sips:bob@b.example:5061;transport=tcp", "tel:+1234567", "sip:a&b@example.com", "sip:o'neil@example.com", "sip:a@b?Subject=x&Priority=y", "http://h/" + "a" * 503]
BADURIS = ["", "alice", "sip:", "http://h/" + "a" * 504, "a\nb"]
PACKS = ["presence", "a.b-1!%*_+`'~", "p" * 64]
BADPACKS = ["", "p" * 65, "a b", "a<b", "a\"b"]
DNS = ["Alice", "", "A & <B> \"C\" 'D'", "d" * 256, "a\tb", "\"", "' event='x"]
BADDNS = ["d" * 257, "a\nb", "a\rb"]
WST = ["pending", "active", "waiting", "terminated"]
WEV = ["subscribe", "approved", "deactivated", "probation", "rejected", "timeout", "giveup", "noresource"]
CEV = ["registered", "created", "refreshed", "shortened", "expired", "deactivated", "rejected", "unregistered", "probation"]
NUMS = ["0", "1", "3600", "4294967295"]
QS = ["0", "0.25", "0.5", "0.8", "1"]
CIDS = ["abc@host", "<\"&'>", "c" * 256]
BADCIDS = ["", "c" * 257, "a\nb"]


def el(n, at=(), t="", ks=()):
    return {"n": n, "as": [{"n": a, "v": v} for a, v in at if v is not None], "t": t, "ks": list(ks)}


def esc(rng, x, ctx):
    out = []
    names = {"<": "lt", ">": "gt", "&": "amp", "\"": "quot", "'": "apos"}
    for c in x:
        must = c in "&<" or c == ctx or c in "\t\r\n" or (c == ">" and ctx == "" and rng.random() < 0.5)
        if c == ">" and out[-2:] == ["]", "]"]:
            must = True
        if must or (rng.random() < 0.1 and c.strip()):
            y = rng.random()
            out.append("&%s;" % names[c] if c in names and y < 0.6 else "&#%d;" % ord(c) if y < 0.8 else "&#x%X;" % ord(c))
        else:
            out.append(c)
    return "".join(out)


def render(rng, e, wild, top=True):
    """the element as XML text, in one of its layouts"""
    gap = lambda: rng.choice(["\n  ", "\n", "", " ", "\r\n\t"]) if wild else "\n"
    eq = lambda: rng.choice(["=", "=", " = ", "= "]) if wild else "="
    at = list(e["as"])
    if wild:
        rng.shuffle(at)
    x = "<" + e["n"]
    for a in at:
        q = rng.choice(["\"", "'"]) if wild else "\""
        x += (rng.choice([" ", "\n  ", "\t", "  "]) if wild else " ") + a["n"] + eq() + q + esc(rng, a["v"], q) + q
    x += rng.choice(["", "", " ", "\n"]) if wild else ""
    if not e["ks"] and not e["t"] and e["n"] in ("note", "contact", "timestamp", "watcher-list", "status") and wild and rng.random() < 0.5:
        return x + "/>"
    if e["ks"]:
        return x + ">" + "".join(gap() + render(rng, k, wild, False) for k in e["ks"]) + gap() + "</" + e["n"] + ">"
    pad = rng.choice(["", "", " ", "\n   "]) if wild else ""
    return x + ">" + pad + esc(rng, e["t"], "") + pad + "</" + e["n"] + ">"


def tree(e):
    """what an XML parser makes of it"""
    n = lambda x: x.split("}")[-1]
    return {"n": n(e.tag), "as": sorted((n(a), v) for a, v in e.attrib.items()), "t": "" if len(e) else (e.text or "").strip(), "ks": [tree(k) for k in e]}


def plain(t):
    return {"n": t["n"], "as": sorted((a["n"].split(":")[-1], a["v"]) for a in t["as"] if a["n"] != "xmlns"), "t": t["t"].strip(), "ks": [plain(k) for k in t["ks"]]}


NS = {"pidf": "urn:ietf:params:xml:ns:pidf", "winfo": "urn:ietf:params:xml:ns:watcherinfo"}


def reading(rng, k, t, wild=True):
    x = rng.choice(["<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0'?>", ""]) + render(rng, t, wild) + rng.choice(["", "\n"])
    assert plain(t) == tree(ET.fromstring(x)), (t, x)
    return {"op": "read", "k": k, "t": t, "x": x, "bad": False}


class XmlDoc(Suite):
    name = "xmldoc"
    module = "XmlDoc"
    props = ("B02",)

    def mc(self, tier, prop):
        import random
        rng = random.Random(7)
        base = dict(module="M_XmlDoc", view="View", emit=True, inv=["TypeOK", "Readable"])
        SH = [{"op": "show"}, {"op": "again"}]
        c = lambda acts, d=3: dict(base, consts={"Acts": tset(SH + acts), "Depth": d})
        new = lambda k, **d: {"op": "new", "k": k, "d": d}
        add = lambda k, d, rep=1, more=0: {"op": "add", "k": k, "d": d, "rep": rep, "more": more}
        tup = lambda id="t", st=(), c=(), ns=(), tm=(): add("pidf", {"id": id, "st": list(st), "c": list(c), "ns": list(ns), "tm": list(tm)})
        wat = lambda id="w", st="active", ev="subscribe", uri=(), dn=(), ex=(), du=(): {"id": id, "st": st, "ev": ev, "uri": list(uri), "dn": list(dn), "ex": list(ex), "du": list(du)}
        lst = lambda r=URIS[0], p="presence", ws=(), **kw: add("winfo", {"r": r, "p": p, "ws": list(ws)}, **kw)
        con = lambda id="c", st="active", uri="sip:a@b", **kw: dict({"id": id, "st": st, "uri": uri, "ev": [], "dn": [], "ex": [], "ra": [], "du": [], "q": [], "ci": [], "sq": []}, **kw)
        reg = lambda a="sip:a@b", id="r", st="active", cs=(), **kw: add("reg", {"a": a, "id": id, "st": st, "cs": list(cs)}, **kw)
        P, W, G = new("pidf", e="pres:a@b"), new("winfo", ver="1", st="full"), new("reg", ver="2", st="partial")
        pidf = [new("pidf", e=x) for x in ENTS + BADENTS] + [{"op": "note", "x": x} for x in TEXTS + BADTEXTS]
        tups = [P, tup(), tup(st=["open"]), tup(st=["closed"]), tup(ns=["a", "b"]), tup("x", ["open"], ["sip:a@b"], ["n"], ["2025"])] + [tup(id=x) for x in IDS + BADIDS] + [tup(c=[x]) for x in TEXTS + BADTEXTS] + [tup(ns=[x]) for x in TEXTS + BADTEXTS] + [tup(tm=[x]) for x in TIMES + BADTIMES] + [tup(ns=["n"] * n) for n in (10, 11)]
        big = [P, dict(tup(), rep=49), tup(), dict(tup(), rep=51), {"op": "note", "x": "n"}]
        win = [new("winfo", ver=v, st=x) for v in NUMS for x in ("full", "PARTIAL")] + [new("winfo", ver="1", st=x) for x in ("", "fully", "full ", "p" * 17)] + [lst(ws=[wat()])]
        lists = [W, lst(ws=[wat("a"), wat("b")])] + [lst(r=x) for x in URIS + BADURIS] + [lst(p=x) for x in PACKS + BADPACKS] + [lst(ws=[wat(id=x)]) for x in IDS + BADIDS] + [lst(ws=[wat(st=x)]) for x in WST] + [lst(ws=[wat(ev=x)]) for x in WEV] + [lst(ws=[wat(uri=[x])]) for x in URIS + BADURIS] \
            + [lst(ws=[wat(dn=[x])]) for x in DNS + BADDNS] + [lst(ws=[wat(ex=[n], du=["1"])]) for n in NUMS] + [lst(ws=[wat(du=[n])]) for n in NUMS]
        wbig = [W, lst(rep=99), lst(), lst(rep=101), lst(ws=[wat()], more=1000)]
        regs = [new("reg", ver=v, st=x) for v in NUMS[1:] for x in ("full", "partial")]
        rels = [G, reg(rep=99), reg(), reg(rep=101), reg(cs=[con()], more=49), reg(cs=[con()], more=50)] + [reg(a=x) for x in ENTS + BADENTS] + [reg(id=x) for x in IDS + BADIDS] + [reg(st=x) for x in ("init", "active", "terminated")] + [reg(cs=[con(uri=x)]) for x in ENTS + BADENTS] + [reg(cs=[con(id=x)]) for x in IDS + BADIDS] \
            + [reg(cs=[con(st="terminated", **{k: [v]})]) for k, q in (("ev", CEV + ["Created", ""]), ("dn", DNS[:4] + BADDNS[:1] + ["a\tb"]), ("ci", CIDS + BADCIDS), ("q", QS + ["1.1", "-0.1", "NaN"]), ("ex", NUMS), ("ra", NUMS), ("du", NUMS), ("sq", NUMS)) for v in q] + [reg(cs=[con("a"), con("b")])]
        rd = [reading(rng, k, t, False) for k, ts in (("pidf", self.ptrees()), ("winfo", self.wtrees())) for t in ts]
        return [c(pidf), c(tups), c(big, 6), c(win), c(lists), c(wbig, 5), c(regs + rels[1:3]), c(rels), c(rd)]

    def ptrees(self):
        P = lambda *ks, at=(("entity", "pres:a@b"),): el("presence", (("xmlns", NS["pidf"]),) + tuple(at), ks=ks)
        T = lambda *ks, at=(("id", "t"),): el("tuple", at, ks=ks)
        st = lambda x: el("status", ks=[el("basic", t=x)])
        x = lambda n, t, at=(): el(n, at, t)
        return [P(), P(at=()), el("presenc", [("entity", "a")]), P(T(at=())), P(T(st("open"))), P(T(st(" CLOSED "))), P(T(st("away"))), P(T(st(""))), P(T(el("status"))), P(T(x("contact", "a"), x("contact", "b"))), P(T(x("timestamp", "a"), x("timestamp", "b"))), P(T(x("contact", "a"), x("timestamp", "b"))),
                P(T(x("contact", "a", [("priority", "0.8")]), x("note", "n", [("xml:lang", "en")]), x("note", "m")), x("note", "d", [("xml:lang", "fr")])), P(x("note", "1"), T(x("note", "2")), x("note", "3"), T(at=[("id", "u")])), P(T(at=[("myid", "a"), ("id", "b")])), P(T(at=[("myid", "a")])), P(at=[("xentity", "a")]),
                P(at=[("x", " entity=\"evil\""), ("entity", "e")]), P(T(at=[("x", "id=\"evil\" >"), ("id", "b")])), P(T(x("notes", "a"))), P(*[x("note", "n")] * 20), P(*[x("note", "n")] * 21), P(T(*[x("note", "n")] * 10)), P(T(*[x("note", "n")] * 11)), P(*[T()] * 50), P(*[T()] * 51), P(T(at=[("id", "")])), P(at=[("entity", "")])]

    def wtrees(self):
        W = lambda *ks, at=(("version", "0"), ("state", "full")): el("watcherinfo", (("xmlns", NS["winfo"]),) + tuple(at), ks=ks)
        L = lambda *ks, at=(("resource", "sip:a@b"), ("package", "presence")): el("watcher-list", at, ks=ks)
        w = lambda t="", at=(("id", "1"), ("status", "active"), ("event", "approved")), more=(): el("watcher", tuple(at) + tuple(more), t)
        a = lambda **kw: [(k, v) for k, v in kw.items() if v is not None]
        return [W(), W(at=[("version", "0")]), W(at=[("state", "full")]), W(at=a(version="x", state="full")), W(at=a(version="-1", state="full")), W(at=a(version="4294967296", state="full")), W(at=a(version="007", state="Partial")), W(at=a(version="1", state="none")), el("watcher", a(version="1", state="full")),
                W(L()), W(L(), L(w())), W(L(at=a(resource="sip:a@b"))), W(L(at=a(package="p"))), W(L(at=a(resource="x", package="p"))), W(L(w("sip:a@b"), w(" tel:+1 "))), W(L(w("bad"))), W(L(w(at=a(id="1", status="active")))), W(L(w(at=a(id="1", event="timeout")))), W(L(w(at=a(status="active", event="timeout")))),
                W(L(w(at=a(id="1", status="ACTIVE", event="Giveup")))), W(L(w(at=a(id="1", status="x", event="giveup")))), W(L(w(at=a(id="1", status="active", event="x")))), W(L(w(more=[("expiration", "60"), ("duration-subscribed", "7"), ("display-name", "A > B")]))), W(L(w(more=[("expiration", "x"), ("duration-subscribed", "99999999999")]))),
                W(L(w(more=[("my-id", "2"), ("xstatus", "z"), ("display-name", " id=\"evil\" status='terminated'")]))), W(L(w(at=[("x", "id"), ("id", "1"), ("status", "active"), ("event", "approved")]))), W(L(w(at=[("display-name", "d" * 257), ("id", "1"), ("status", "active"), ("event", "approved")]))), W(*[L()] * 100), W(*[L()] * 101)]

    # ------------------------------------------------------------ generation
    def text(self, rng, good, wrong, bad):
        if rng.random() < bad:
            return rng.choice(wrong)
        x = rng.choice(good)
        if len(x) > 60 and rng.random() < 0.9:
            return self.text(rng, good, wrong, 0)
        if rng.random() < 0.3:
            x = "".join(rng.choice("ab<>&\"'/=;# ") for _ in range(rng.randrange(1, 9)))
        return x

    def uri(self, rng, bad):
        return rng.choice(BADURIS) if rng.random() < bad else rng.choice(URIS)

    def opt(self, rng, f, p=0.5):
        return [f()] if rng.random() < p else []

    def tuple(self, rng, bad):
        t = lambda g, w: self.text(rng, g, w, bad)
        return {"id": t(IDS, BADIDS), "st": self.opt(rng, lambda: rng.choice(["open", "closed"])), "c": self.opt(rng, lambda: t(TEXTS, BADTEXTS)), "ns": [t(TEXTS, BADTEXTS) for _ in range(rng.choice([0, 0, 1, 2, 3]))], "tm": self.opt(rng, lambda: t(TIMES, BADTIMES))}

    def watcher(self, rng, bad):
        t = lambda g, w: self.text(rng, g, w, bad)
        n = lambda: rng.choice(NUMS)
        return {"id": t(IDS, BADIDS), "st": rng.choice(WST), "ev": rng.choice(WEV), "uri": self.opt(rng, lambda: self.uri(rng, bad)), "dn": self.opt(rng, lambda: t(DNS, BADDNS)), "ex": self.opt(rng, n), "du": self.opt(rng, n)}

    def wlist(self, rng, bad):
        return {"r": self.uri(rng, bad), "p": rng.choice(BADPACKS if rng.random() < bad else PACKS), "ws": [self.watcher(rng, bad / 2) for _ in range(rng.choice([0, 1, 1, 2, 3]))]}

    def reg(self, rng, bad):
        t = lambda g, w: self.text(rng, g, w, bad / 2)
        n = lambda: rng.choice(NUMS)
        con = lambda: {"id": t(IDS, BADIDS), "st": rng.choice(["active", "terminated"]), "uri": t(ENTS, BADENTS), "ev": self.opt(rng, lambda: rng.choice(CEV)), "dn": self.opt(rng, lambda: t(DNS[:4], BADDNS)), "ex": self.opt(rng, n), "ra": self.opt(rng, n, 0.2), "du": self.opt(rng, n, 0.3),
                       "q": self.opt(rng, lambda: rng.choice(QS), 0.3), "ci": self.opt(rng, lambda: t(CIDS, BADCIDS), 0.3), "sq": self.opt(rng, n, 0.3)}
        return {"a": t(ENTS, BADENTS), "id": t(IDS, BADIDS), "st": rng.choice(["init", "active", "terminated"]), "cs": [con() for _ in range(rng.choice([0, 1, 1, 2, 3]))]}

    def ptree(self, rng, bad):
        lang = lambda: rng.choice([[], [], [("xml:lang", "en")]])
        note = lambda x: el("note", lang(), x)
        ts = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            d = self.tuple(rng, bad)
            ks = []
            if d["st"] or rng.random() < 0.3:
                b = d["st"][0] if d["st"] else None
                b = rng.choice([b, b.upper(), b.title()]) if b else b
                b = rng.choice(["away", "", "opened"]) if b and rng.random() < bad else b
                ks.append(el("status", ks=[el("basic", t=b)] if b is not None else []))
            ks += [el("contact", rng.choice([[], [("priority", "0.8")]]), x) for x in d["c"] * (2 if rng.random() < bad else 1)] + [note(x) for x in d["ns"]] + [el("timestamp", t=x) for x in d["tm"]]
            if rng.random() < 0.2:
                rng.shuffle(ks)
            if rng.random() < 0.2:
                ks.append(el(rng.choice(["ext", "contacts", "idle"]), [("id", "z")], "x"))
            ts.append(el("tuple", ([] if rng.random() < bad else [("id", d["id"])]) + rng.choice([[], [], [("my-id", "q")], [("a", "id='1' id=\"2\"")]]), ks=ks))
        ks = ts + [note(self.text(rng, TEXTS, BADTEXTS, bad)) for _ in range(rng.choice([0, 0, 1, 2]))]
        if rng.random() < 0.3:
            rng.shuffle(ks)
        return el("presence", [("xmlns", NS["pidf"])] + ([] if rng.random() < bad / 3 else [("entity", self.text(rng, ENTS, BADENTS, bad / 3))]) + rng.choice([[], [("x-entity", "no")]]), ks=ks)

    def wtree(self, rng, bad):
        drop = lambda at: [a for a in at if a[1] is not None and not (rng.random() < bad / 6)]
        case = lambda x: rng.choice([x, x, x.upper(), x.title()]) if rng.random() > bad / 3 else "other"
        ls = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            d = self.wlist(rng, bad)
            ws = []
            for w in d["ws"]:
                num = lambda q: rng.choice(["x", "-1", "4294967296", ""]) if q and rng.random() < 0.1 else q[0] if q else None
                ws.append(el("watcher", drop([("id", w["id"]), ("status", case(w["st"])), ("event", case(w["ev"])), ("display-name", w["dn"][0] if w["dn"] else None), ("expiration", num(w["ex"])), ("duration-subscribed", num(w["du"]))]) + rng.choice([[], [], [("my-id", "q")], [("x", "id='1' status=\"active\"")]]),
                             w["uri"][0] if w["uri"] and "\n" not in w["uri"][0] else ""))
            ls.append(el("watcher-list", drop([("resource", d["r"]), ("package", d["p"])]) + rng.choice([[], [("packages", "q")]]), ks=ws))
        return el("watcherinfo", [("xmlns", NS["winfo"])] + drop([("version", rng.choice(NUMS + ["007"]) if rng.random() > bad / 3 else rng.choice(["", "-1", "x", "4294967296"])), ("state", case(rng.choice(["full", "partial"])))]), ks=ls)

    def gen(self, rng, tier, prop):
        out = []
        for _ in range(16000 if tier == "thorough" else 2500):
            bad = rng.choice([0, 0, 0, 0.05, 0.2])
            k = rng.choice(["pidf", "pidf", "winfo", "winfo", "reg"])
            if k == "reg" or rng.random() < 0.35:
                d = {"e": self.text(rng, ENTS, BADENTS, bad)} if k == "pidf" else {"ver": rng.choice(NUMS), "st": rng.choice(["full", "partial"])}
                if k == "winfo" and rng.random() < 0.2:
                    d["st"] = rng.choice(["FULL", "Partial", "none", ""])
                ev = [{"op": "new", "k": k, "d": d}]
            else:
                t = self.ptree(rng, bad) if k == "pidf" else self.wtree(rng, bad)
                r = reading(rng, k, t)
                y = rng.random()
                end = {"pidf": ["</tuple>", "</note>"], "winfo": ["</watcher>", "</watcher-list>"]}[k][0]
                tag = end[2:-1]
                if y < 0.06 and end in r["x"] and r["x"].rfind("<" + tag) < r["x"].rfind(end) and (k == "pidf" or True):
                    i = r["x"].rfind(end)
                    r = dict(r, x=r["x"][:i] + r["x"][i + len(end):], bad=True)
                elif y < 0.25:
                    x = r["x"]
                    for _ in range(rng.choice([1, 1, 2, 5])):
                        i = rng.randrange(len(x) + 1)
                        x = x[:i] + rng.choice(["", "<", ">", "\"", "&", ";", "</", "/>", "'", "=", " "]) + x[i + rng.choice([0, 1, 1, 8]):]
                    r = {"op": "junk", "k": k, "x": x}
                ev = [r]
            for _ in range(rng.choice([0, 1, 2, 3])):
                x = rng.random()
                if x < 0.2:
                    ev.append({"op": rng.choice(["show", "again"])})
                elif x < 0.4:
                    ev.append({"op": "note", "x": self.text(rng, TEXTS, BADTEXTS, bad)})
                else:
                    d = {"pidf": self.tuple, "winfo": self.wlist, "reg": self.reg}[k](rng, bad)
                    ev.append({"op": "add", "k": k, "d": d, "rep": rng.choice([1, 1, 1, 2]), "more": 0})
            out.append({"cfg": [], "ev": ev + [{"op": "show"}, {"op": "again"}]})
        return out

    def must_see(self, prop, tier):
        return ["new:ok", "new:err", "add:ok", "add:err", "note:ok", "note:err", "read:ok", "read:err", "junk:read", "junk:refused", "again:pidf", "again:winfo", "again:reg"]


SUITES = [XmlDoc()]
