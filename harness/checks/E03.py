"""E03: see catalog.py."""
import collections
import contextlib
import copy
import datetime
import io
import tempfile
from urllib.parse import urlparse

import vboot
import cesrlib as cl
import kellib as kl
import msggen as mg
from checks import V05
from checks.H02 import Site
from vh import must, same

RULE = ("controllers with and without witnesses, delegators and services are served by the repository's own endpoints and introduced to fresh parties, mixed with schemas, multiple introductions, well-known addresses, "
        "signed introductions, and hostile, failing, slow and absent answers, in every order, with restarts and passing time; non-trivial if introductions of several outcomes were followed")
REQUIRE = ["asked", "resolved", "failed", "retried", "absent", "served_controller", "served_witness", "served_blind", "served_role", "states", "locations", "roles", "schemas", "wrong_schema", "bad_json", "odd_header", "bad_status",
           "garbage", "altered", "multi", "multi_failed", "multi_wrong", "multi_junk", "nested_multi", "aliases", "restarts", "again", "again_better", "introduced", "introduced_falsely", "known_places", "unknown_places", "bad_address",
           "waiting", "foreign_header"]
ASSUME = ["the HTTP client and server libraries are stand-ins: what an address answers is handed over as a response with status, headers and body"]

BASE = datetime.datetime(2026, 1, 1, tzinfo=datetime.timezone.utc)


class Clock:
    def __init__(self):
        self.now = BASE

    def utc(self):
        return self.now

    def iso(self):
        return self.now.isoformat(timespec="microseconds")


class Client:
    def __init__(self, url):
        self.url = url
        self.responses = collections.deque()
        self.answered = False


class Clienter:
    """Takes requests as the real one does, and leaves them for the network to answer."""

    def __init__(self, log):
        self.open, self.log = [], log

    def request(self, method, url, body=None, headers=None):
        same((method, body), ("GET", None), "request for an introduction")
        try:
            u = urlparse(url)
            if u.scheme not in ("http", "https") or not u.hostname or u.port == 0:
                return None
        except ValueError:
            return None
        c = Client(url)
        self.open.append(c)
        self.log.append(url)
        return c

    def remove(self, client):
        if client in self.open:
            self.open.remove(client)


def headers(**kwa):
    from hio.help import hicting
    return hicting.Hict([(k.replace("_", "-"), v) for k, v in kwa.items()])


def answer(status=200, body=b"", typ="application/cesr", **kwa):
    h = headers(**kwa)
    if typ is not None:
        h["Content-Type"] = typ
    return dict(status=status, headers=h, body=bytearray(body), reason="")


class Party:
    """A controller or witness with its served introductions."""

    def __init__(self, hab, base, wits):
        self.hab, self.base, self.wits = hab, base, wits


class World:
    def __init__(self, ctx, rng, top):
        from falcon import testing
        import falcon
        from keri.end import ending
        self.ctx, self.rng = ctx, rng
        self.major = rng.choice([1, 2])
        self.ctl = Site(top, "ctl", self.major, rng)
        self.wsite = Site(top, "wit", self.major, rng)
        self.v = self.ctl.version
        self.kind = "JSON" if self.major == 1 else rng.choice(["JSON", "CESR"])
        self.wits = []
        self.parties = []
        self.sites = [self.ctl, self.wsite]
        for j in range(2):
            w = self.wsite.hby.makeHab(name=f"w{j}", transferable=False, version=self.v)
            p = Party(w, f"http://wit{j}.example:564{j}", [])
            self.own(p, p.base)
            self.wits.append(p)
        self.apps = {}
        for site, base, default in [(self.ctl, "http://ctl.example:5640", None)] + [(self.wsite, p.base, p.hab.pre) for p in self.wits]:
            app = falcon.App()
            ending.loadEnds(app, site.hby, default=default)
            self.apps[urlparse(base).netloc] = testing.TestClient(app)

    def close(self):
        for s in self.sites:
            s.shut()

    def own(self, p, url):
        h = p.hab
        for m in (h.makeLocScheme(url=url, scheme="http", version=self.v, gvrsn=self.v, kind=self.kind), h.makeEndRole(eid=h.pre, role="controller", version=self.v, gvrsn=self.v, kind=self.kind)):
            h.psr.parse(ims=bytearray(m))

    def controller(self, name):
        rng = self.rng
        wits = rng.sample(self.wits, rng.choice([0, 0, 1, 2]))
        h = self.ctl.hby.makeHab(name=name, icount=rng.randint(1, 2), isith="1", wits=[w.hab.pre for w in wits], toad=len(wits), version=self.v, kind=self.kind)
        p = Party(h, "http://ctl.example:5640", wits)
        self.witness(p)
        for _ in range(rng.choice([0, 0, 1, 2])):
            (h.rotate if rng.random() < 0.5 else h.interact)(version=self.v, kind=self.kind)
            self.witness(p)
        self.own(p, p.base)
        if rng.random() < 0.5 and self.parties:
            q = rng.choice(self.parties)
            role = rng.choice(["agent", "mailbox", "watcher", "gateway"])
            h.psr.parse(ims=bytearray(h.makeEndRole(eid=q.hab.pre, role=role, version=self.v, gvrsn=self.v, kind=self.kind)))
            p.role = (role, q)
        else:
            p.role = None
        self.parties.append(p)
        return p

    def witness(self, p):
        h = p.hab
        for sn in range(h.kever.sn + 1):
            s = h.getOwnEvent(sn=sn)[0]
            m = h.msgOwnEvent(sn=sn, framed=True, gvrsn=self.v)
            for w in p.wits:
                self.wsite.hby.psr.parse(ims=bytearray(m))
                self.wsite.hby.kvy.processEscrows()
                rct = w.hab.witness(s, framed=True, gvrsn=self.v, version=self.v)
                h.psr.parse(ims=bytearray(rct))
                for x in p.wits:        # witnesses tell one another
                    x.hab.psr.parse(ims=bytearray(rct))
        for _ in range(3):
            self.ctl.hby.kvy.processEscrows()
            self.wsite.hby.kvy.processEscrows()

    def log(self, pre):
        best = []
        for s in self.sites:
            x = list(s.hby.db.kels.getAllIter(keys=pre))
            if len(x) > len(best):
                best = x
        return best

    # ------------------------------------------------------------- network
    def served(self, url):
        u = urlparse(url)
        r = self.apps[u.netloc].simulate_get(u.path, params={})
        h = headers()
        for k, v in r.headers.items():
            h[k] = v
        return dict(status=int(str(r.status).split()[0]), headers=h, body=bytearray(r.content), reason="")


CESR = ["application/cesr", "application/json+cesr", "application/cesr+json"]


class Run:
    """A fresh party following introductions."""

    def __init__(self, ctx, rng, top, world):
        from keri.app import oobiing
        self.ctx, self.rng, self.w = ctx, rng, world
        self.clock = Clock()
        self.site = Site(top, "me", world.major, rng)
        self.me = self.site.hby.makeHab(name="me", version=world.v)
        self.log = []
        self.start()
        self.script = {}            # url -> answers yet to give
        self.last = {}              # url -> (want state, ...) after the last answer taken
        self.alias = {}             # identifier -> acceptable aliases
        self.n = 0
        self.want = {}              # url -> expected state now
        self.parts = {}
        self.schemas = {}
        self.notschemas = set()
        self.good = []              # (party, url) whose served answer was taken
        self.hostile = []

    def start(self):
        from keri.app import oobiing
        from keri.core import Router, Revery
        self.clienter = Clienter(self.log)
        self.rvy = Revery(db=self.site.hby.db, rtr=Router())
        self.ob = oobiing.Oobiery(hby=self.site.hby, clienter=self.clienter, rvy=self.rvy)

    def name(self):
        self.n += 1
        return f"n{self.n}"

    def add(self, url, answers, want, alias=None, pin=True):
        """Record an introduction; answers: responses in turn; want: outcome after all of them."""
        from keri.recording import OobiRecord
        self.script.setdefault(url, []).extend(answers)
        self.want[url] = want
        if pin:
            self.site.hby.db.oobis.pin(keys=(url,), val=OobiRecord(date=self.clock.iso(), oobialias=alias))

    # ------------------------------------------------------------ drive
    def turn(self):
        before = set(self.log)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                self.ob.processFlows()
        except Exception as ex:
            must(False, "resolver stops with %s: %s after %s", type(ex).__name__, str(ex)[:100], [c.url for c in self.clienter.open][:3])
        rng = self.rng
        todo = [c for c in self.clienter.open if not c.answered]
        rng.shuffle(todo)
        for c in todo:
            if rng.random() < 0.7:
                self.reply(c)

    def reply(self, c):
        a = self.script.get(c.url)
        must(a is not None, "address %r nobody introduced is asked", c.url)
        if not a:
            return
        x = a[0]
        if len(a) > 1:
            a.pop(0)
        if x is None:
            return
        c.responses.append(x() if callable(x) else copy.deepcopy(x))
        c.answered = True
        self.ctx.saw("asked")

    def settle(self, rounds=14):
        for _ in range(rounds):
            self.turn()
            if self.rng.random() < 0.05:
                self.restart()
        for _ in range(5):
            for c in list(self.clienter.open):
                if not c.answered:
                    self.reply(c)
            self.turn()

    def restart(self):
        self.site.restart()
        self.me = self.site.hby.habByName("me")
        self.start()
        self.ctx.saw("restarts")

    # -------------------------------------------------------------- judge
    def where(self, url):
        db = self.site.hby.db
        return sorted(n for n in ("oobis", "coobi", "eoobi", "moobi", "roobi") if getattr(db, n).get(keys=(url,)) is not None)

    def judge(self, final):
        db = self.site.hby.db
        for url, want in self.want.items():
            at = self.where(url)
            r = db.roobi.get(keys=(url,))
            if want in ("resolved", "failed"):
                same((at, r and r.state), (["roobi"], want), f"record of {url}")
                self.ctx.saw(want)
            elif want == "any":
                must(at == ["roobi"] and r.state in ("resolved", "failed"), "introduction %s has no outcome: it is in %s", url, at)
            elif want == "retry":
                must("eoobi" in at and "coobi" not in at, "introduction %s not found is not kept for another try: it is in %s", url, at)
                self.ctx.saw("retried")
            elif want == "wait":
                must("coobi" in at and "eoobi" not in at, "introduction %s without an answer is not waiting: it is in %s", url, at)
                self.ctx.saw("waiting")
            elif want == "parts":
                must("moobi" in at and "coobi" not in at, "multiple introduction %s is not waiting for its parts: it is in %s", url, at)
        # nothing false is adopted
        truth = {}
        for site in self.w.sites:
            for pre, k in site.hby.kevers.items():
                truth.setdefault(pre, []).append(k)
        for pre, k in self.site.hby.kevers.items():
            if pre in (self.me.pre, self.site.hby.signator.pre):
                continue
            must(pre in truth, "identifier %s of no one is adopted", pre)
            same([v for v in db.kels.getAllIter(keys=pre)], [v for v in self.w.log(pre)][:k.sn + 1], f"log adopted for {pre}")
        for (said,), s in db.schema.getTopItemIter():
            must(said in self.schemas, "schema %s nobody asked for is stored", said)
            same((s.said, s.raw), (said, self.schemas[said]), "schema stored")
            self.ctx.saw("schemas")
        for (cid, role, eid), end in db.ends.getTopItemIter():
            x = [e for s in self.w.sites for e in [s.hby.db.ends.get(keys=(cid, role, eid))] if e]
            must(x and x[0] == end or role == "witness", "endpoint role %s of %s for %s was never made", role, cid, eid)
        for (eid, scheme), loc in db.locs.getTopItemIter():
            x = [e for s in self.w.sites for e in [s.hby.db.locs.get(keys=(eid, scheme))] if e]
            must(any(y.url == loc.url for y in x), "location %s of %s was never made", loc.url, eid)
        for p, url in self.good:
            if self.want[url] != "resolved" or "roobi" not in self.where(url):
                continue
            pre = p.hab.pre
            must(pre in self.site.hby.kevers, "identifier %s introduced by %s is not known", pre, url)
            k, t = self.site.hby.kevers[pre], p.hab.kever
            same((k.sn, k.serder.said, [v.qb64 for v in k.verfers], list(k.wits)), (t.sn, t.serder.said, [v.qb64 for v in t.verfers], list(t.wits)), f"key state of {pre} after {url}")
            self.ctx.saw("states")
            role = urlparse(url).path.split("/")[3] if urlparse(url).path.count("/") > 2 else None
            if role == "witness":
                eids = [x.hab.pre for x in p.wits]
                wanted = urlparse(url).path.split("/")[4:]
                for e in wanted or eids:
                    x = db.locs.get(keys=(e, "http"))
                    must(x is not None, "no location of witness %s after %s", e, url)
                    self.ctx.saw("locations")
            elif role is None or role == "controller":
                if not p.hab.kever.prefixer.transferable:
                    continue
                x = db.locs.get(keys=(pre, "http"))
                same(x and x.url, p.base if role == "controller" or p.hab.pre in self.w.ctl.hby.habs else x and x.url, f"location of {pre} after {url}")
                self.ctx.saw("locations")
                e = db.ends.get(keys=(pre, "controller", pre))
                must(e is not None and e.allowed, "role controller of %s is not known after %s", pre, url)
                self.ctx.saw("roles")
            else:
                q = p.role[1]
                e = db.ends.get(keys=(pre, role, q.hab.pre))
                must(e is not None and e.allowed, "role %s of %s for %s is not known after %s", role, q.hab.pre, pre, url)
                self.ctx.saw("roles")
        for pre, names in self.alias.items():
            c = self.ob.org.get(pre)
            must(c is not None and c.get("alias") in names, "contact of %s has alias %r, not one of %r", pre, c and c.get("alias"), names)
            self.ctx.saw("aliases")
        for p in self.w.parties:
            if p.hab.pre not in self.alias:
                must(self.ob.org.get(p.hab.pre) is None, "contact of %s is recorded without an introduction that names it", p.hab.pre)


# ------------------------------------------------------------------ the kinds
def served(run, p, url, alias=None):
    ctx, rng, w = run.ctx, run.rng, run.w
    other = [q for q in w.parties if q is not p]
    if other and urlparse(url).path.count("/") > 2 and rng.random() < 0.4:
        def reply():
            r = w.served(url)
            r["headers"]["KERI-AID"] = other[0].hab.pre
            ctx.saw("foreign_header")
            return r
        return reply
    return lambda: w.served(url)


def pick(run):
    """A served address of some controller: (party, url)."""
    rng, w, ctx = run.rng, run.w, run.ctx
    p = rng.choice(w.parties)
    k = rng.random()
    if k < 0.35 and p.wits:
        x = rng.choice(p.wits)
        ctx.saw("served_witness")
        return p, f"{x.base}/oobi/{p.hab.pre}/witness/{x.hab.pre}"
    if k < 0.5 and p.wits:
        ctx.saw("served_witness")
        return p, f"{rng.choice(p.wits).base}/oobi/{p.hab.pre}/witness"
    if k < 0.6:
        x = rng.choice(w.wits)
        ctx.saw("served_blind")
        return x, f"{x.base}/oobi"
    if k < 0.75 and p.role:
        ctx.saw("served_role")
        return p, f"{p.base}/oobi/{p.hab.pre}/{p.role[0]}" + (f"/{p.role[1].hab.pre}" if rng.random() < 0.5 else "")
    ctx.saw("served_controller")
    return p, f"{p.base}/oobi/{p.hab.pre}/controller"


def place(run, tail):
    run.n += 1
    return f"http://h{run.n}.example:{run.rng.randint(1, 65000)}{tail}"


def schema(rng, ctx):
    _, sed = V05.build(rng, type("N", (), {"saw": lambda *a: None})(), {})
    want = V05.said(sed)
    return want, V05.compact({**sed, "$id": want})


def rpy(rng, route, data, major=1, kind="JSON"):
    sad = dict(v=mg.vstring("KERI", 1, kind, 0), t="rpy", d="", dt=mg.stamp(rng), r=route, a=data)
    return mg.finish(sad, kind, {"d": "E"})[1]


JUNK = [b"", b"{}", b"[]", b"null", b"3", b'"x"', b"\xff\xfe", b"{", b'{"$id":3}', b'{"$id":""}', b'{"$id":"Exx"}', b'{"v":"KERI10JSON000011_"}', b'{"v":3,"t":"rpy"}', b"[" * 3000, b'{"v":"KERI10JSON000022_","t":"rpy"}',
        b'{"$id":{"a":1}}', b'{"v":"ACDC10JSON000022_","t":"rpy"}   ', b"true", b'{"$id":null,"type":"object"}']


def single(run):
    """One plain introduction: url, answers, outcome; recorded by the caller."""
    rng, ctx, w = run.rng, run.ctx, run.w
    k = rng.random()
    aid = rng.choice(w.parties).hab.pre
    ctl = f"/oobi/{aid}/controller"
    if k < 0.3:
        p, url = pick(run)
        run.good.append((p, url))
        return url, [served(run, p, url)], "resolved"
    if k < 0.5:
        said, raw = schema(rng, ctx)
        url = place(run, f"/oobi/{said}")
        typ = rng.choice(["application/schema+json", "application/json", "application/json; charset=utf-8"])
        j = rng.random()
        if j < 0.5:
            run.schemas[said] = raw
            return url, [answer(body=raw, typ=typ)], "resolved"
        ctx.saw("wrong_schema")
        run.notschemas.add(said)
        bad = schema(rng, ctx)[1] if j < 0.7 else raw[:-1] if j < 0.8 else raw.replace(b'"type":"', b'"type": "', 1).replace(b'"integer"', b'"number"').replace(b'"string"', b'"null"') if j < 0.9 else raw.replace(said.encode(), b"E" + b"A" * 43)
        if bad.replace(b": ", b":") == raw:
            bad = raw[:-1]
        return url, [answer(body=bad, typ=typ)], "failed"
    if k < 0.58:
        ctx.saw("bad_json")
        url = place(run, rng.choice([ctl, f"/oobi/{mg.digest(rng)}", "/oobi"]))
        return url, [answer(body=rng.choice(JUNK), typ=rng.choice(["application/json", "application/schema+json"]))], "failed"
    if k < 0.64:
        ctx.saw("odd_header")
        return place(run, ctl), [answer(body=rng.choice(JUNK), typ=rng.choice([None, "text/html", "", "cesr", "application/xml"]))], "failed"
    if k < 0.7:
        ctx.saw("bad_status")
        url = place(run, rng.choice([ctl, f"/oobi/{mg.digest(rng)}"]))
        return url, [answer(status=rng.choice([500, 503, 400, 403, 401, 302, 301, 204, 206]), typ=rng.choice([None, "application/cesr", "application/json"]), body=b"{}")], "failed"
    if k < 0.78:
        p, u = pick(run)
        raw = bytearray(w.served(u)["body"])
        if rng.random() < 0.5:
            ctx.saw("garbage")
            raw = rng.choice([bytearray(rng.randbytes(rng.randint(0, 80))), bytearray(b"<html></html>"), raw[:rng.randrange(len(raw) + 1)], bytearray(b"-AAB") + raw[:60]])
        else:
            ctx.saw("altered")
            for _ in range(rng.randint(1, 3)):
                j = rng.randrange(len(raw))
                raw[j] = rng.choice(b"AbC019-_\"{}")
        return place(run, urlparse(u).path), [answer(body=raw, typ=rng.choice(CESR))], "any"
    if k < 0.84:
        ctx.saw("absent")
        if rng.random() < 0.5:
            return place(run, ctl), [answer(status=404, typ=None)], "retry"
        p, u = pick(run)
        url = place(run, urlparse(u).path + "?x=1")
        return url, [answer(status=404, typ=None)], "retry"
    if k < 0.9:
        return place(run, ctl), [None], "wait"
    ctx.saw("bad_address")
    return rng.choice(["http://[bad", "http:///oobi/%s/controller" % aid, "ftp://x.example/oobi/%s/controller" % aid, "http://x.example:99999/oobi/%s/controller" % aid, f"/oobi/{aid}/controller"]) + f"?q={run.name()}", [], "failed"


def multi(run, depth=0):
    rng, ctx, w = run.rng, run.ctx, run.w
    p = rng.choice(w.parties)
    cid = p.hab.pre
    ctx.saw("nested_multi" if depth else "multi")
    url = place(run, f"/oobi/{cid}/{rng.choice(['controller', 'witness'])}")
    route = rng.choice(["/oobi/controller", "/oobi/witness"])
    k = rng.random()
    if k < 0.12:
        ctx.saw("multi_wrong")
        r = rng.choice([rpy(rng, route, dict(aid=mg.digest(rng), urls=[])), rpy(rng, "/oobi/other", dict(aid=cid, urls=[])), rpy(rng, route, {}), rpy(rng, route, dict(aid=cid)), rpy(rng, route, dict(urls=[])),
                        rpy(rng, route, dict(aid=cid, urls=[])).replace(b'"d":"E', b'"d":"F'), rpy(rng, route, [])])
        return url, [answer(body=r, typ="application/json")], "failed"
    if k < 0.24:
        ctx.saw("multi_junk")
        u = rng.choice([3, None, "x", {}, [3], [None], ["http://x.example/" + "y" * 600], ["http://a.example/oobi>b"], [""], ["\u0000"], [["http://a.example/oobi"]], ["http://a.example:5/other/path"]])
        return url, [answer(body=rpy(rng, route, dict(aid=cid, urls=u)), typ="application/json")], "failed"
    urls, wants = [], []
    for _ in range(rng.randint(1, 3)):
        u, a, x = multi(run, depth + 1) if depth == 0 and rng.random() < 0.15 else single(run)
        if u in urls or u in run.want:
            run.good = [g for g in run.good if g[1] != u or u in run.want]
            continue
        urls.append(u)
        run.parts.setdefault(url, []).append(u)
        wants.append(x)
        run.script.setdefault(u, []).extend(a)
        run.want[u] = x
    st = "parts" if any(x in ("retry", "wait", "parts") for x in wants) else "failed" if "failed" in wants else "any" if "any" in wants else "resolved"
    ctx.saw("multi_failed", st == "failed")
    return url, [answer(body=rpy(rng, route, dict(aid=cid, urls=urls)), typ="application/json")], st


def follow(ctx, rng, i):
    from keri.app import oobiing
    with tempfile.TemporaryDirectory() as top:
        w = World(ctx, rng, top)
        keep = {n: getattr(oobiing, n) for n in ("nowUTC", "nowIso8601")}
        run = None
        try:
            for j in range(rng.randint(1, 3)):
                w.controller(f"c{j}")
            run = Run(ctx, rng, top, w)
            oobiing.nowUTC, oobiing.nowIso8601 = run.clock.utc, run.clock.iso
            outcomes = set()
            for _ in range(rng.randint(2, 4)):
                for _ in range(rng.randint(1, 4)):
                    u, a, x = multi(run) if rng.random() < 0.25 else single(run)
                    if u in run.want and run.want[u] != "resolved":
                        continue
                    alias = None
                    if x == "resolved" and run.good and run.good[-1][1] == u and rng.random() < 0.5 and u not in run.want:
                        alias = run.name()
                        pre = run.good[-1][0].hab.pre
                        if "/oobi/" in u:
                            run.alias.setdefault(pre, set()).clear()
                            run.alias[pre] = {alias} | {z for z in run.alias[pre]}
                        else:
                            alias = None
                    run.add(u, a if u not in run.want else [], x, alias)
                    if alias:
                        run.settle()
                run.settle()
                run.judge(False)
                outcomes |= set(run.want.values())
                again(run)
                waits(run)
                run.judge(False)
            introduced(run)
            known(run)
            run.judge(True)
            ctx.case(tuple(sorted(run.want.items())), len(outcomes) > 2)
        finally:
            for n, f in keep.items():
                setattr(oobiing, n, f)
            if run:
                run.site.shut()
            w.close()


def again(run):
    """Introductions repeated: the new outcome stands."""
    from keri.recording import OobiRecord
    rng, ctx = run.rng, run.ctx
    def over(u):
        return run.want[u] in ("resolved", "failed") and all(map(over, run.parts.get(u, [])))

    def now(u):
        if u in run.parts:
            run.want[u] = "failed" if "failed" in list(map(now, run.parts[u])) else "resolved"
        return run.want[u]
    done = [u for u in run.want if over(u) and run.script.get(u)]
    if not done or rng.random() < 0.4:
        return
    u = rng.choice(done)
    if run.want[u] == "failed" and not u.startswith(("http://h", "http://x", "http://[", "http:///", "ftp", "/")):
        return
    ctx.saw("again")
    now(u)
    if rng.random() < 0.3:
        run.site.hby.db.roobi.rem(keys=(u,))
    if u in run.parts:
        pass
    elif run.want[u] == "failed" and u.startswith("http://h") and urlparse(u).path.startswith("/oobi/") and rng.random() < 0.7:
        p = rng.choice(run.w.parties)
        v = f"{p.base}/oobi/{p.hab.pre}/controller"
        if p.hab.pre == urlparse(u).path.split("/")[2]:
            run.script[u] = [lambda: run.w.served(v)]
            run.want[u] = "resolved"
            ctx.saw("again_better")
    elif run.want[u] == "resolved" and rng.random() < 0.2 and (not run.good or all(g[1] != u for g in run.good)) and urlparse(u).path.count("/") == 2:
        run.script[u] = [answer(status=500, typ=None)]
        run.want[u] = "failed"
    run.site.hby.db.oobis.pin(keys=(u,), val=OobiRecord(date=run.clock.iso()))
    n = len(run.log)
    run.settle()
    must(u in run.log[n:] or not u.startswith("http://") or run.want[u] == "failed", "introduction %s repeated is not asked again", u)


def waits(run):
    """Time passes: what was not found is asked again, not before its time, and what had no answer may get one."""
    rng, ctx = run.rng, run.ctx
    absent = [u for u, x in run.want.items() if x == "retry"]
    n = len(run.log)
    run.clock.now += datetime.timedelta(seconds=rng.choice([1, 10]))
    run.turn()
    for u in absent:
        must(u not in run.log[n:], "introduction %s is asked again at once", u)
    if rng.random() < 0.5:
        run.settle()
        return
    run.clock.now += datetime.timedelta(seconds=40)
    better = [u for u in absent if rng.random() < 0.5]
    for u in better:
        p = [p for p in run.w.parties if p.hab.pre in u]
        b = p[0] if p else run.w.parties[0]
        v = f"{b.base}/oobi/{b.hab.pre}/controller"
        if p or urlparse(u).path == "/oobi":
            run.script[u] = [lambda v=v: run.w.served(v)]
            run.want[u] = "resolved"
            parents(run)
    n = len(run.log)
    run.settle()
    for u in absent:
        must(u in run.log[n:], "introduction %s not found is not asked again after its delay", u)


def parents(run):
    """Multiple introductions waiting only for parts that now have an outcome: outcome not predicted exactly."""
    for u, x in run.want.items():
        if x == "parts":
            run.want[u] = "some"


def introduced(run):
    """Introductions in signed replies."""
    from keri.core import Parser
    rng, ctx, w = run.rng, run.ctx, run.w
    known = [p for p in w.parties if p.hab.pre in run.site.hby.kevers and run.site.hby.kevers[p.hab.pre].sn == p.hab.kever.sn]
    for _ in range(2):
        if not known:
            return
        p = rng.choice(known)
        url = place(run, f"/oobi/{p.hab.pre}/controller")
        m = bytearray(p.hab.reply(route="/introduce", data=dict(cid=p.hab.pre, oobi=url), version=w.v, gvrsn=w.v, kind=w.kind))
        k = rng.random()
        false = None
        if k < 0.15:
            if len(p.hab.kever.verfers) > 1:    # one signature would do
                continue
            j = len(m) - rng.randint(5, 60)
            m[j] = ord("A") if m[j] != ord("A") else ord("B")
            false = url
        elif k < 0.3:
            q = [q for q in w.parties if q is not p]
            if not q:
                continue
            m = bytearray(p.hab.reply(route="/introduce", data=dict(cid=q[0].hab.pre, oobi=url), version=w.v, gvrsn=w.v, kind=w.kind))
            false = url
        elif k < 0.45:
            bad = rng.choice(["ftp://x.example/oobi", "file:///oobi", "x", f"http://a.example/oobi>{run.name()}", "http://x.example/" + "y" * 600])
            m = bytearray(p.hab.reply(route="/introduce", data=dict(cid=p.hab.pre, oobi=bad), version=w.v, gvrsn=w.v, kind=w.kind))
            false = bad
        parser = Parser(framed=True, kvy=run.site.hby.kvy, rvy=run.rvy, version=run.site.version)
        parser.parse(ims=m)
        if false:
            ctx.saw("introduced_falsely")
            have = [">".join(k) for k, _ in run.site.hby.db.oobis.getTopItemIter()]
            must(false not in have, "introduction by a false reply is recorded: %s (%s)", false[:60], (k, p.hab.kever.sn))
        else:
            r = run.site.hby.db.oobis.get(keys=(url,))
            must(r is not None and r.cid == p.hab.pre, "introduction by a signed reply is not recorded")
            run.script[url] = [lambda p=p: w.served(f"{p.base}/oobi/{p.hab.pre}/controller")]
            run.want[url] = "resolved"
            ctx.saw("introduced")
    run.settle()


def known(run):
    """Well-known addresses of known and unknown identifiers."""
    from keri.app import oobiing
    from keri.recording import OobiRecord
    rng, ctx, w = run.rng, run.ctx, run.w
    db = run.site.hby.db
    want = {}
    au = oobiing.Authenticator(hby=run.site.hby, clienter=Clienter([]))
    for _ in range(rng.randint(1, 4)):
        p = rng.choice(w.parties)
        cid = p.hab.pre if rng.random() < 0.7 else mg.digest(rng)
        url = place(run, f"/.well-known/keri/oobi/{cid}")
        st = rng.choice([200, 200, 201, 204, 301, 404, 500, 503, 100, 0])
        db.woobi.pin(keys=(url,), val=OobiRecord(date=run.clock.iso()))
        want[url] = (cid, st)
    for _ in range(5):
        try:
            au.processFlows()
        except Exception as ex:
            must(False, "authenticator stops with %s: %s", type(ex).__name__, ex)
        for c in au.clienter.open:
            if not c.answered and rng.random() < 0.7:
                c.responses.append(answer(status=want[c.url][1], typ=None))
                c.answered = True
        if rng.random() < 0.2:
            au = oobiing.Authenticator(hby=run.site.hby, clienter=Clienter([]))
    for _ in range(3):
        au.processFlows()
        for c in au.clienter.open:
            if not c.answered:
                c.responses.append(answer(status=want[c.url][1], typ=None))
                c.answered = True
    for url, (cid, st) in want.items():
        if cid not in run.site.hby.kevers:
            must(db.woobi.get(keys=(url,)) is not None and db.rmfa.get(keys=(url,)) is None, "well-known address %s of an unknown identifier is not kept", url)
            ctx.saw("unknown_places")
            ok = False
        else:
            r = db.rmfa.get(keys=(url,))
            must(r is not None and db.woobi.get(keys=(url,)) is None and db.mfa.get(keys=(url,)) is None, "well-known address %s has no outcome", url)
            ok = 200 <= st < 400
            same(r.state, "resolved" if ok else "failed", f"outcome of a well-known address answering {st}")
            ctx.saw("known_places")
        same(url in [x.url for x in db.wkas.get(keys=(cid,))], ok, f"identifier authenticated by an address answering {st}")


CASES = [("follow", follow, 240, 6000)]
