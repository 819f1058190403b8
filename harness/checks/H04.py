"""H04: see catalog.py."""
import os
import tempfile

import vboot  # noqa
import kellib as kl
import msggen as mg
from checks.H02 import Site
from vh import must, same

RULE = ("witnesses with real endpoints are sent true, false, partly signed, conflicting, early, repeated, recovering and mistargeted events and asked for receipts and logs; and controllers have their events receipted by "
        "several witnesses of which some have no address, refuse, missed events or are new; non-trivial if at least one event was receipted and one was not")
REQUIRE = ["posted", "receipted", "not_receipted", "conflict", "early", "early_later", "unsigned", "repeat", "recovery", "foreign_witness", "removed_witness", "unknown_said", "asked", "asked_absent", "log_asked", "log_part",
           "restart", "rounds", "answered", "silent", "refused", "new_witness", "caught_up", "delegated", "older", "batch", "batch_done", "batch_waits", "fetched", "introduced", "superseded", "auths", "barred"]
ASSUME = ["requests reach an endpoint whole and one at a time per connection", "the witnesses' clients and servers run in one process over stand-ins for sockets"]


class Witness:
    """One witness with its endpoints."""

    def __init__(self, ctx, rng, top, name, major, port, aids=None):
        self.ctx, self.rng, self.name, self.port, self.aids = ctx, rng, name, port, aids
        self.site = Site(top, name, major, rng)
        self.hab = self.site.hby.makeHab(name=name, transferable=False, version=self.site.version, kind="JSON")
        self.pre = self.qb64 = self.hab.pre
        self.down = self.deaf = False
        self.auths = []
        self.serve()

    def serve(self):
        import falcon
        from falcon import testing
        from hio.help import decking
        from keri.app import indirecting
        from keri.core import eventing, parsing, routing
        db = self.site.hby.db
        self.cues = decking.Deck()
        self.rvy = routing.Revery(db=db, cues=self.cues)
        self.kvy = eventing.Kevery(db=db, lax=True, local=False, rvy=self.rvy, cues=self.cues)
        self.kvy.registerReplyRoutes(router=self.rvy.rtr)
        self.psr = parsing.Parser(framed=True, kvy=self.kvy, rvy=self.rvy, version=self.site.version)
        self.app = falcon.App()
        self.app.add_route("/", indirecting.HttpEnd(rxbs=self.psr.ims))
        self.app.add_route("/receipts", indirecting.ReceiptEnd(hab=self.hab, inbound=self.cues, aids=self.aids, version=self.site.version))
        self.app.add_route("/query", indirecting.QueryEnd(hab=self.hab, reger=None))
        self.web = testing.TestClient(self.app)

    def restart(self):
        self.site.restart()
        self.hab = self.site.hby.habByName(self.name)
        same(self.hab.pre, self.pre, "identifier of a witness after a restart")
        self.serve()

    @property
    def db(self):
        return self.site.hby.db

    def turn(self):
        """What the witness does between requests."""
        self.psr.parse(local=True)
        self.kvy.processEscrows()
        self.rvy.processEscrowReply()
        self.site.hby.kvy.processEscrows()

    def post(self, raw, atc, path="/receipts"):
        return self.web.simulate_post(path, body=bytes(raw), headers={"Content-Type": "application/cesr", "CESR-ATTACHMENT": bytes(atc).decode(), "CESR-DESTINATION": self.pre})

    def accepted(self, pre, sn):
        return list(self.db.kels.get(keys=pre, on=sn))

    def wigs(self, pre, said):
        return {w.qb64 for w in self.db.wigs.get(keys=(pre, said))}

    def close(self):
        self.site.shut()


B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
GROUPS = {1: dict(V="all", C="couples", A="sigs", B="sigs"), 2: dict(C="all", M="couples", K="sigs", L="sigs")}


def receipt(raw, pre, sn, said):
    """(couples, indexed signatures) of a receipt message for the event."""
    from keri.core import serdering
    raw = bytearray(raw)
    s = serdering.SerderKERI(raw=raw)
    same((s.ked["t"], s.ked["i"], int(s.ked["s"], 16), s.ked["d"]), ("rct", pre, sn, said), "event that a receipt names")
    rest, major = bytes(raw[s.size:]).decode(), s.pvrsn.major
    couples, sigs, i = [], [], 0
    while i < len(rest):
        must(rest[i] == "-" and rest[i + 1] in GROUPS[major], f"unexpected group {rest[i:i + 4]} in a receipt")
        kind, n = GROUPS[major][rest[i + 1]], B64.index(rest[i + 2]) * 64 + B64.index(rest[i + 3])
        i += 4
        if kind == "all":
            continue
        each = 132 if kind == "couples" else 88
        size = n * each if major == 1 else n * 4
        body = rest[i:i + size]
        must(len(body) == size and size % each == 0, "a receipt is cut short")
        for k in range(0, size, each):
            if kind == "couples":
                couples.append((body[k:k + 44], body[k + 44:k + 132]))
            else:
                sigs.append(body[k:k + 88])
        i += size
    return couples, sigs


def truly(raw, wits, sigs, what):
    """Positions of the witnesses whose indexed signatures these are; all must verify."""
    out = set()
    for q in sigs:
        try:
            code, index, ondex, sig = kl.unsig(q)
        except Exception as ex:
            must(False, f"{what}: receipt {q} is not an indexed signature ({ex!r})")
        must(index < len(wits), f"{what}: receipt by a position that no witness has")
        must(kl.verifies(wits[index], sig, raw), f"{what}: receipt that does not verify")
        out.add(index)
    return out


def endpoint(ctx, rng, i):
    """A witness's endpoints hear events made by hand."""
    with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_TMP")) as top:
        major = rng.choice([1, 2])
        wit = Witness(ctx, rng, top, "wit", major, 1)
        try:
            Endpoint(ctx, rng, wit, major).run()
        finally:
            wit.close()


class Endpoint:
    def __init__(self, ctx, rng, wit, major):
        self.ctx, self.rng, self.wit, self.major = ctx, rng, wit, major
        self.designated = rng.random() < 0.85
        others = [kl.Key(rng, False) for _ in range(rng.randrange(0, 3))]
        wits = others + ([wit] if self.designated else [])
        rng.shuffle(wits)
        self.ctl = kl.Ctl(rng, major=major, kind="JSON", wits=wits, basic=False)
        if not self.designated and rng.random() < 0.7:
            self.ctl.pool.insert(0, wit)
        self.log = [self.ctl.last]            # the controller's current chain
        self.sure = -1                        # the witness has surely accepted the chain up to here
        self.may = set()                      # saids the witness may have accepted
        self.known = []                       # every event posted
        self.signed = set()                   # saids receipted
        self.yes = self.no = 0

    def parts(self, ev, sigs, wigs=()):
        raw, gm = kl.message(self.rng, ev.raw, major=self.major, sigs=sigs, wigs=wigs, gm=self.major)
        return ev.raw, raw[len(ev.raw):]

    def post(self, ev, sigs, what, path="/receipts", expect=None, body=None):
        ctx, wit = self.ctx, self.wit
        before = ev.said in wit.accepted(ev.pre, ev.sn)
        raw, atc = self.parts(ev, sigs)
        rep = wit.post(raw, atc, path)
        ctx.saw("posted")
        self.known.append(ev)
        if path == "/":
            wit.turn()
            self.judge(what)
            return
        acc = ev.said in wit.accepted(ev.pre, ev.sn)
        here = wit in ev.wits
        if expect is not None:
            same(acc, expect, f"{what}: event accepted")
        ok = rep.status_code == 200
        ctx.log(what, ev.ilk, ev.sn, rep.status_code)
        same(ok, acc and here, f"{what}: a receipt is returned (accepted {acc}, designated {here}, status {rep.status_code})")
        if ok:
            couples, sigs = receipt(rep.content, ev.pre, ev.sn, ev.said)
            wits = [w.qb64 for w in ev.wits]
            got = truly(ev.raw, wits, sigs, what)
            for k, s in couples:
                must(kl.verifies(k, unsig(s), ev.raw), f"{what}: returned receipt does not verify")
                if k in wits:
                    got.add(wits.index(k))
            must(wits.index(wit.pre) in got, f"{what}: the returned receipt is not the witness's own")
            self.signed.add(ev.said)
            ctx.saw("receipted")
            self.yes += 1
        else:
            must(rep.status_code in (202, 400), f"{what}: an event without receipt is answered {rep.status_code}")
            must(len(rep.content or b"") == 0 or b"-" not in (rep.content or b"")[:1] and b'"rct"' not in rep.content, f"{what}: receipt in a refusal")
            ctx.saw("not_receipted")
            self.no += 1
        if rng_chance(self.rng, 0.4):
            wit.turn()
        self.judge(what)

    def judge(self, what):
        """The witness's own signature stands only on accepted events that designate it, and on all it returned receipts for."""
        wit = self.wit
        for ev in {e.said: e for e in self.known}.values():
            wits = [w.qb64 for w in ev.wits]
            acc = ev.said in wit.accepted(ev.pre, ev.sn)
            sigs = wit.wigs(ev.pre, ev.said)
            own = {q for q in sigs if kl.unsig(q)[1] < len(wits) and wits[kl.unsig(q)[1]] == wit.pre}
            loose = [v.qb64 for v, c in wit.db.rcts.get(keys=(ev.pre, ev.said)) if v.qb64 == wit.pre]
            if ev.said in self.signed:
                must(len(own) == 1, f"{what}: the witness does not hold the receipt it gave of {ev.ilk} at {ev.sn}")
                must(acc, f"{what}: a receipted event is not accepted")
            if own or loose:
                must(acc and wit.pre in wits, f"{what}: own receipt recorded for an event that is {'not accepted' if not acc else 'not the witness'}")

    def grow(self):
        """The controller makes its next event."""
        rng, ctl = self.rng, self.ctl
        wit = self.wit
        if rng.random() < 0.5 or not ctl.lastest.next:
            return ctl.ixn()
        return ctl.rot(rotwits=0.5)

    def good(self, ev):
        """Signatures that surely suffice."""
        return ev.signatures(self.rng)

    def nextgood(self):
        """The next event of the chain the witness lacks."""
        for ev in self.ctl.branch:
            if ev.said not in self.wit.accepted(ev.pre, ev.sn):
                return ev
        return None

    def local(self, ev):
        """Whether the witness takes the event without others' receipts."""
        return self.wit in ev.wits

    def step(self):
        rng, ctl, wit, ctx = self.rng, self.ctl, self.wit, self.ctx
        what = rng.choice(["next"] * 6 + ["grow"] * 2 + ["repeat", "repeat", "conflict", "conflict", "early", "unsigned", "recovery", "asked", "asked", "log", "log", "restart", "older"])
        if what == "grow" or self.nextgood() is None and what in ("next", "early", "unsigned"):
            self.grow()
            what = "next" if what == "grow" else what
        nxt = self.nextgood()
        if what == "next" and nxt is not None:
            path = "/" if rng.random() < 0.15 else "/receipts"
            self.post(nxt, self.good(nxt), "next event", path, expect=True if self.local(nxt) and path == "/receipts" else None)
            if not self.local(nxt):
                ctx.saw("foreign_witness")
                # others' receipts complete it
                raw, gm = kl.message(rng, nxt.raw, major=self.major, sigs=self.good(nxt), wigs=nxt.receipts([j for j, w in enumerate(nxt.wits) if w is not wit]), gm=self.major)
                wit.post(nxt.raw, raw[len(nxt.raw):], "/")
                wit.turn()
                must(nxt.said in wit.accepted(nxt.pre, nxt.sn), "fully receipted event of a log with other witnesses is not accepted")
                self.post(nxt, self.good(nxt), "event of a log with other witnesses")
            if rng.random() < 0.6:
                wit.turn()
        elif what == "repeat":
            have = [e for e in ctl.branch if e.said in wit.accepted(e.pre, e.sn)]
            if have:
                ev = rng.choice(have)
                ctx.saw("repeat")
                if wit not in ctl.lastest.wits and wit in ev.wits:
                    ctx.saw("removed_witness")
                self.post(ev, self.good(ev) if rng.random() < 0.7 else [kl.badsigs(rng, ev)], "repeated event", expect=True)
        elif what == "conflict":
            have = [e for e in ctl.branch if e.sn > 0 and e.said in wit.accepted(e.pre, e.sn)]
            if have:
                ev = rng.choice(have)
                after = [e for e in ctl.branch if e.sn >= ev.sn and e.est and e.said in wit.accepted(e.pre, e.sn)]
                ctx.saw("conflict")
                # an interaction never replaces anything; a rotation only what follows the last rotation
                bad = ctl.ixn(at=ev.sn, push=False, a=[dict(d=kl.digest(rng.randbytes(8)))]) if not after or rng.random() < 0.6 else ctl.rot(at=ev.sn, push=False, rotwits=0)
                self.post(bad, self.good(bad), "conflicting event", expect=False)
        elif what == "early":
            self.grow()
            late = [e for e in ctl.branch if e.sn > nxt.sn] if nxt else []
            if late:
                ev = rng.choice(late)
                ctx.saw("early")
                self.post(ev, self.good(ev), "early event", expect=False)
                if rng.random() < 0.6:
                    for e in [e for e in ctl.branch if nxt.sn <= e.sn <= ev.sn]:
                        if not self.local(e):
                            break
                        self.post(e, self.good(e), "missing event", expect=True)
                    else:
                        wit.turn()
                        self.post(ev, self.good(ev), "event once early", expect=True)
                        ctx.saw("early_later")
        elif what == "unsigned" and nxt is not None:
            good = self.good(nxt)
            sigs = rng.sample(good, rng.randrange(len(good))) + [kl.badsigs(rng, nxt)]
            if not nxt.enough(sigs):
                ctx.saw("unsigned")
                # signatures in several requests add up
                self.post(nxt, sigs, "event short of signatures")
        elif what == "recovery":
            last = ctl.lastest
            tail = [e for e in ctl.branch if e.sn > last.sn and e.said in wit.accepted(e.pre, e.sn)]
            if tail and last.next and last.ilk in ("icp", "rot"):
                at = rng.choice(tail).sn
                old = [e for e in ctl.branch if e.sn >= at]
                ev = ctl.rot(at=at, rotwits=0.3)
                ctx.saw("recovery")
                self.post(ev, self.good(ev), "recovery", expect=True if self.local(ev) else None)
                for e in old:
                    if e.said in self.signed and wit in e.wits:
                        ctx.saw("superseded")
        elif what == "asked":
            self.ask()
        elif what == "log":
            self.read()
        elif what == "older":
            other = kl.Ctl(rng, major=self.major, kind="JSON", wits=[kl.Key(rng, False)] if rng.random() < 0.5 else [])
            self.post(other.last, other.last.signatures(rng), "event of a log that does not designate the witness")
            ctx.saw("foreign_witness")
        elif what == "restart":
            wit.turn()
            wit.restart()
            ctx.saw("restart")
            self.judge("after a restart")

    def ask(self):
        """Receipts handed out are what is held of the accepted event."""
        rng, ctl, wit, ctx = self.rng, self.ctl, self.wit, self.ctx
        ev = rng.choice(ctl.branch)
        acc = wit.accepted(ev.pre, ev.sn)
        how = rng.choice(["sn", "said", "both", "unknown", "nothing", "no pre", "beyond"])
        ps = {"pre": ev.pre}
        if how in ("sn", "both"):
            ps["sn"] = ev.sn
        if how in ("said", "both"):
            ps["said"] = ev.said
        if how == "unknown":
            ps["said"] = kl.digest(rng.randbytes(8))
            ctx.saw("unknown_said")
        if how == "beyond":
            ps["sn"] = len(ctl.branch) + rng.randrange(5)
            acc = wit.accepted(ev.pre, ps["sn"])
        if how == "no pre":
            ps = {"sn": ev.sn}
        rep = wit.web.simulate_get("/receipts", params=ps)
        ctx.saw("asked")
        if how in ("nothing", "no pre"):
            same(rep.status_code, 400, f"answer to a request for receipts with {how}")
        elif how in ("unknown", "beyond"):
            same(rep.status_code, 404, f"answer to a request for receipts of an event unknown ({how})")
            ctx.saw("asked_absent")
        elif how == "both" and (not acc or acc[-1] != ev.said):
            must(rep.status_code != 500, f"request for receipts with sn and said answered {rep.status_code}")
        elif not acc or (how == "said" and ev.said not in acc):
            if rep.status_code != 404:
                must(how == "said" and rep.status_code != 500, f"answer {rep.status_code} to a request ({how}) for receipts of an event not accepted")
                must(wit.pre not in [w.qb64 for w in ev.wits] or not any(kl.verifies(wit.pre, kl.unsig(q)[3], ev.raw) for q in (receipt(rep.content, ev.pre, ev.sn, ev.said)[1] if rep.status_code == 200 else [])),
                     "own receipt handed out of an event not accepted")
            ctx.saw("asked_absent")
        else:
            said = ev.said if how == "said" else acc[-1]
            ev = next(e for e in ctl.events if e.said == said)
            if wit not in ev.wits:
                same(rep.status_code, 400, f"answer to a request ({how}) for receipts to one that is no witness")
                return
            same(rep.status_code, 200, f"answer to a request ({how}) for receipts of an accepted event")
            couples, sigs = receipt(rep.content, ev.pre, ev.sn, ev.said)
            same((couples, set(sigs)), ([], wit.wigs(ev.pre, ev.said)), "receipts handed out")
            same(len(sigs), len(set(sigs)), "receipts handed out, once each")
            truly(ev.raw, [w.qb64 for w in ev.wits], sigs, "receipts handed out")
            ctx.saw("fetched")

    def read(self):
        """Logs handed out are the accepted log."""
        from keri.core import serdering
        rng, ctl, wit, ctx = self.rng, self.ctl, self.wit, self.ctx
        ps = {"typ": "kel", "pre": ctl.pre}
        sn = None
        if rng.random() < 0.5:
            sn = ps["sn"] = rng.randrange(len(ctl.branch) + 1)
        rep = wit.web.simulate_get("/query", params=ps)
        kevers = wit.site.hby.kevers
        top = kevers[ctl.pre].sn if ctl.pre in kevers else -1
        if sn is not None and not wit.accepted(ctl.pre, sn):
            same(rep.status_code, 400, "answer to a request for a log from beyond its end")
            return
        same(rep.status_code, 200, "answer to a request for a log")
        raw = bytearray(rep.content or b"")
        if top < 0:
            same(bytes(raw), b"", "log handed out of an unknown identifier")
            return
        got = []
        while raw:
            body = serdering.SerderKERI(raw=raw)
            end = raw.find(b"{", body.size)
            end = len(raw) if end < 0 else end
            got.append((body.said, bytes(raw[body.size:end]).decode()))
            del raw[:end]
        if sn is None:
            ctx.saw("log_asked")
            want = [d for _, _, d in wit.db.fels.getAllItemIter(keys=ctl.pre)]
        else:
            ctx.saw("log_part")
            want = [d for n in range(sn, len(ctl.events)) for d in wit.accepted(ctl.pre, n)]    # also what recovery superseded
        same([d for d, _ in got], want, f"events of a log read from {sn}")
        fns = {d: on for _, on, d in wit.db.fels.getAllItemIter(keys=ctl.pre)}
        for d, atc in got:
            ev = next(e for e in ctl.events if e.said == d)
            for q in [x.qb64 for x in wit.db.sigs.get(keys=(ctl.pre, d))] + list(wit.wigs(ctl.pre, d)):
                must(q in atc, f"a signature or receipt held is not read with the log from {sn}")
            n = kl.sg.mat("0A", fns[d].to_bytes(16, "big"))
            must(n in atc or kl.sg.mat("M", fns[d].to_bytes(2, "big")) in atc, f"ordinal of first sight is not read with the log from {sn}")

    def run(self):
        for _ in range(self.rng.randrange(8, 26)):
            self.step()
        self.wit.turn()
        self.judge("in the end")
        self.ctx.case((self.wit.pre, len(self.known), self.yes, self.no, tuple(e.said for e in self.ctl.branch)), nontrivial=self.yes > 0 and self.no > 0)
        self.ctx.sample(dict(major=self.major, events=len(self.ctl.events), receipted=self.yes, refused=self.no))


def unsig(s):
    import base64
    return base64.urlsafe_b64decode(s)[2:]


def rng_chance(rng, p):
    return rng.random() < p


class Net:
    """Carries requests between clients and the witnesses."""

    def __init__(self, ctx, rng, wits):
        self.ctx, self.rng = ctx, rng
        self.by = {w.port: w for w in wits}
        self.answered, self.seen = {}, []

    def __call__(self, client, req):
        from collections import namedtuple
        Rep = namedtuple("Rep", "status body headers")
        wit = self.by[client.port]
        hs = {k: v.decode() if isinstance(v, (bytes, bytearray)) else str(v) for k, v in (req["headers"] or {}).items()}
        path = req["path"]
        wit.auths.append(hs.get("Authorization"))
        if wit.down:
            return Rep(self.rng.choice([401, 404, 500, 503]), b"", {})
        if path.startswith("http"):
            path = "/" + path.split("/", 3)[3]
        res = wit.web.simulate_request(req["method"], path, body=bytes(req["body"] or b""), headers=hs)
        if path == "/receipts" and req["method"] == "POST":
            self.answered[wit.pre] = res.status_code
        if not wit.deaf or path != "/":
            wit.turn()
        return Rep(res.status_code, bytes(res.content or b""), dict(res.headers or {}))


class Group:
    """A controller, its witnesses and the net between."""

    def __init__(self, ctx, rng, top):
        from hio.core.http import clienting
        self.ctx, self.rng = ctx, rng
        self.major = rng.choice([1, 2])
        self.wits = [Witness(ctx, rng, top, f"w{j}", self.major, 5000 + j) for j in range(rng.randrange(2, 5))]
        self.site = Site(top, "ctl", self.major, rng)
        self.hby = self.site.hby
        self.v = self.site.version
        self.net = Net(ctx, rng, self.wits)
        clienting.Client.transport = self.net
        clienting.Client.deferred = True
        self.noaddr = set()
        for w in self.wits:
            if rng.random() < 0.12:
                self.noaddr.add(w.pre)
                continue
            self.learn(w)
        self.by = {w.pre: w for w in self.wits}
        self.boss = None
        self.start()
        self.made = {}

    def start(self):
        first = self.rng.sample(self.wits, self.rng.randrange(1, len(self.wits) + 1))
        kwa = {}
        if self.rng.random() < 0.3:
            boss = self.boss = self.hby.makeHab(name="boss", version=self.v, kind="JSON", icount=1, isith="1")
            kwa["delpre"] = boss.pre
            self.ctx.saw("delegated")
        self.hab = self.hby.makeHab(name="me", version=self.v, kind="JSON", icount=1, isith="1", wits=[w.pre for w in first], toad=self.rng.randrange(1, len(first) + 1), **kwa)
        self.pre = self.hab.pre
        self.approve()

    def approve(self):
        """The delegator approves the last event, and all hear of it."""
        from keri.core import coring
        ev = self.hab.kever.serder
        if self.boss is None or ev.ilk == "ixn":
            return
        self.boss.interact(data=[dict(i=self.pre, s=ev.snh, d=ev.said)], version=self.v, kind="JSON")
        last = self.boss.kever.serder
        self.hby.db.aess.pin(keys=(self.pre, ev.said), val=(coring.Number(num=last.sn, code=coring.NumDex.Huge), coring.Diger(qb64=last.said)))
        for w in self.wits:
            for msg in self.hby.db.clonePreIter(pre=self.boss.pre, version=self.v):
                w.site.hby.psr.parse(ims=bytearray(msg), local=True)

    def learn(self, w):
        url = f"http://127.0.0.1:{w.port}/"
        msg = bytes(w.hab.makeLocScheme(url=url, scheme="http", version=self.v, gvrsn=self.v, kind="JSON"))
        for s in (self.site, w.site):
            s.hby.psr.parse(ims=bytearray(w.hab.msgOwnInception(framed=True, gvrsn=self.v)), local=True)
            s.hby.psr.parse(ims=bytearray(msg), local=True)
        must(self.hby.db.locs.get(keys=(w.pre, "http")) is not None, "address of a witness is not learned")

    def close(self):
        from hio.core.http import clienting
        clienting.Client.transport = None
        clienting.Client.deferred = False
        for w in self.wits:
            w.close()
        self.site.shut()

    def event(self, sn):
        from keri.core import serdering
        said = self.hby.db.kels.getLast(keys=self.pre, on=sn)
        return self.hby.db.evts.get(keys=(self.pre, said))

    def designated(self, sn):
        """Witnesses at sn, by the log itself."""
        wits = []
        for n in range(sn + 1):
            k = self.event(n).ked
            if k["t"] in ("icp", "dip"):
                wits = list(k["b"])
            elif k["t"] in ("rot", "drt"):
                wits = [w for w in wits if w not in k["br"]] + list(k["ba"])
        return wits

    def grow(self):
        rng = self.rng
        wits = self.designated(self.hab.kever.sn)
        kwa = dict(version=self.v, kind="JSON")
        if rng.random() < 0.45:
            self.hab.interact(**kwa)
            return
        cuts = [w for w in wits if rng.random() < 0.2]
        adds = [w.pre for w in self.wits if w.pre not in wits and rng.random() < 0.6]
        n = len(wits) - len(cuts) + len(adds)
        self.hab.rotate(cuts=cuts, adds=adds, toad=rng.randrange(1, n + 1) if n else 0, **kwa)
        self.approve()
        if adds:
            self.ctx.saw("new_witness", len(adds))

    def enough(self, w, upto):
        """Whether whoever hears the whole log from the controller can accept what does not designate w."""
        toad = 0
        for n in range(upto):
            ev = self.event(n)
            toad = int(ev.ked["bt"], 16) if "bt" in ev.ked else toad
            if w not in self.designated(n) and len(self.held(self.hby.db, ev.said)) < toad:
                return False
        return True

    def weather(self):
        for w in self.wits:
            w.down = self.rng.random() < 0.15

    def held(self, db, said):
        return {w.qb64 for w in db.wigs.get(keys=(self.pre, said))}

    def audit(self, what):
        """No party holds a receipt that does not verify."""
        for sn in range(self.hab.kever.sn + 1):
            ev = self.event(sn)
            wits = self.designated(sn)
            for db in [self.hby.db] + [w.db for w in self.wits]:
                got = truly(ev.raw, wits, self.held(db, ev.said), what)
            for w in self.wits:
                if w.pre in wits and any(kl.unsig(q)[1] == wits.index(w.pre) for q in self.held(self.hby.db, ev.said)):
                    must(ev.said in w.accepted(self.pre, sn), f"{what}: a witness's receipt is held of an event it did not accept")


def drive(doist, gen, limit=4000):
    """Run the generator to its end beside the doers."""
    for _ in range(limit):
        try:
            next(gen)
        except StopIteration as ex:
            return ex.value
        doist.recur()
    must(False, "receipting does not end")


def rounds(ctx, rng, i):
    """Receiptor."""
    from hio.base import doing
    from keri.app import agenting
    agenting.print = lambda *a, **k: None   # Receiptor narrates refusals
    with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_TMP")) as top:
        g = Group(ctx, rng, top)
        try:
            rec = agenting.Receiptor(hby=g.hby)
            doist = doing.Doist(doers=[rec])
            doist.enter()
            yes = no = 0
            for k in range(rng.randrange(2, 8)):
                if k and rng.random() < 0.85:
                    g.grow()
                g.weather()
                head = g.hab.kever.sn
                sn = head if rng.random() < 0.7 else rng.randrange(head + 1)
                if sn < head:
                    ctx.saw("older")
                if rng.random() < 0.15:
                    fetch(g, rec, doist, sn)
                    continue
                ev, wits = g.event(sn), g.designated(sn)
                before = g.held(g.hby.db, ev.said)
                g.net.answered = {}
                auths = {w: f"code {w}" for w in wits if rng.random() < 0.2}
                for w in g.wits:
                    w.auths = []
                ctx.log("receipt", sn, ev.ked["t"], [w[:6] for w in wits], dict(down=[w.pre[:6] for w in g.wits if w.down], noaddr=[w[:6] for w in g.noaddr]))
                got = drive(doist, rec.receipt(g.pre, None if sn == head and rng.random() < 0.5 else sn, auths or None))
                ctx.saw("rounds")
                got = list(got or [])
                ans = [w for w, st in g.net.answered.items() if st == 200]
                same(sorted(got), sorted(ans), "witnesses reported as having given receipts")
                for w in wits:
                    x = g.by[w]
                    must((w in g.net.answered) == (w not in g.noaddr and not x.down), f"a reachable witness is not asked ({w[:6]})")
                    if x.down or w in g.noaddr:
                        ctx.saw("silent")
                        no += 1
                    elif w not in got:
                        no += 1
                        ctx.saw("refused")
                        missed = [n for n in range(sn) if g.event(n).said not in x.accepted(g.pre, n)]
                        must(missed, f"a reachable witness that has the log does not receipt ({g.net.answered[w]})")
                    if w in auths and not x.down and w not in g.noaddr:
                        ctx.saw("auths")
                        must(auths[w] in x.auths, "authorisation is not passed to its witness")
                    must(all(a is None or a == auths.get(w) for a in x.auths), "authorisation is passed to another witness")
                    if ev.ked["t"] in ("rot", "drt") and w in ev.ked["ba"] and not x.down and w not in g.noaddr and g.enough(w, sn):
                        ctx.saw("caught_up")
                        must(w in got, "a newly added witness does not receipt")
                        same([x.accepted(g.pre, n)[-1:] for n in range(sn + 1)], [[g.event(n).said] for n in range(sn + 1)], "log at a newly added witness")
                mine = g.held(g.hby.db, ev.said)
                pos = truly(ev.raw, wits, mine, "controller")
                must(before <= mine, "receipts are lost")
                for w in got:
                    yes += 1
                    ctx.saw("answered")
                    x = g.by[w]
                    must(wits.index(w) in pos, "a receipt given is not held by the controller")
                    must(ev.said in x.accepted(g.pre, sn), "a witness gave a receipt of an event it did not accept")
                    x.turn()
                    must(mine <= g.held(x.db, ev.said), f"a witness that answered lacks receipts that the controller holds: {len(g.held(x.db, ev.said))} of {len(mine)}")
                    if ev.ked["t"] in ("icp", "dip") or w in ev.ked.get("ba", ()):
                        for o in pos:
                            o = wits[o]
                            if o != w and o not in g.noaddr:
                                loc = x.db.locs.get(keys=(o, "http"))
                                must(loc is not None and loc.url == f"http://127.0.0.1:{g.by[o].port}/", "a new witness does not learn the address of another")
                                ctx.saw("introduced")
                g.audit(f"round {k}")
            ctx.case((g.pre, yes, no, g.hab.kever.serder.said), nontrivial=yes > 0)
            ctx.sample(dict(witnesses=len(g.wits), events=g.hab.kever.sn + 1, receipts=yes, without=no))
        finally:
            g.close()


def fetch(g, rec, doist, sn):
    """The controller asks for receipts it may lack."""
    from keri.kering import MissingEntryError
    import random
    ev, wits = g.event(sn), g.designated(sn)
    now = g.designated(g.hab.kever.sn)
    before = g.held(g.hby.db, ev.said)
    random.seed(g.rng.randrange(1 << 30))
    g.ctx.saw("fetches")
    try:
        ok = drive(doist, rec.get(g.pre, sn))
    except MissingEntryError:
        must(any(w in g.noaddr for w in now), "no witness found to ask for receipts")
        return
    mine = g.held(g.hby.db, ev.said)
    must(before <= mine, "receipts are lost by asking")
    truly(ev.raw, wits, mine, "after asking")
    if ok:
        must(any(g.held(w.db, ev.said) <= mine for w in g.wits if w.pre in wits and not w.down), "receipts handed out are not held")
        g.ctx.saw("got_receipts")
    elif now:
        must(any(w in g.noaddr or g.by[w].down or w not in wits or ev.said not in g.by[w].accepted(g.pre, sn) for w in now), "a witness that has the event hands out no receipts")


def batch(ctx, rng, i):
    """WitnessReceiptor."""
    from hio.base import doing
    from keri.app import agenting
    with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_TMP")) as top:
        g = Group(ctx, rng, top)
        try:
            for w in list(g.noaddr):
                g.noaddr.discard(w)
                g.learn(g.by[w])
            force = rng.random() < 0.3
            rec = agenting.WitnessReceiptor(hby=g.hby, force=force)
            doist = doing.Doist(doers=[rec])
            doist.enter()
            yes = no = 0
            todo = [0]
            for k in range(rng.randrange(2, 7)):
                head = g.hab.kever.sn
                if not todo and rng.random() < 0.85:
                    g.grow()
                    head += 1
                    todo = [head]
                sn = todo.pop(0) if todo else rng.randrange(head + 1)
                if sn < head:
                    ctx.saw("older")
                ev, wits = g.event(sn), g.designated(sn)
                if not wits:
                    continue
                ctx.saw("batch")
                late = rng.choice(wits) if rng.random() < 0.3 else None
                had = len(g.held(g.hby.db, ev.said)) == len(wits)
                ctx.log("batch", sn, ev.ked["t"], len(wits), dict(late=late and late[:6], had=had))
                rec.msgs.append(dict(pre=g.pre, sn=sn) if sn != head or rng.random() < 0.5 else dict(pre=g.pre))
                wait = rng.randrange(0, 4)

                def relay(skip=None):
                    for w in g.wits:
                        w.turn()
                        if w.pre == skip:
                            continue
                        for msg in w.hab.processCuesIter(w.cues):
                            if msg:
                                g.hby.psr.parse(ims=bytearray(msg), local=True)
                    g.hby.kvy.processEscrows()
                for t in range(60):
                    doist.recur()
                    if t % (wait + 1) == 0:
                        relay(late)
                    if rec.cues and t > 20:
                        break
                if late and not had and not any(kl.unsig(q)[1] == wits.index(late) for q in g.held(g.hby.db, ev.said)):
                    must(not rec.cues, "receipting is announced as complete while a receipt is missing")
                    ctx.saw("batch_waits")
                    no += 1
                for t in range(400):
                    if rec.cues:
                        break
                    doist.recur()
                    relay()
                must(rec.cues, f"receipting by all witnesses does not complete: {len(g.held(g.hby.db, ev.said))} of {len(wits)}")
                done = rec.cues.popleft()
                same(done["pre"], g.pre, "identifier announced as receipted")
                for t in range(5):
                    doist.recur()
                    relay()
                must(not rec.cues, "receipting announced twice")
                mine = g.held(g.hby.db, ev.said)
                same(truly(ev.raw, wits, mine, "controller"), set(range(len(wits))), "receipts held by the controller")
                for w in wits:
                    x = g.by[w]
                    must(ev.said in x.accepted(g.pre, sn), "a witness lacks an event announced as receipted")
                    if not had or force:
                        same(g.held(x.db, ev.said), mine, "receipts at a witness after all were announced")
                    yes += 1
                ctx.saw("batch_done")
                g.audit(f"batch {k}")
            ctx.case((g.pre, yes, no, g.hab.kever.serder.said), nontrivial=yes > 0)
            ctx.sample(dict(witnesses=len(g.wits), events=g.hab.kever.sn + 1, receipts=yes, waits=no))
        finally:
            g.close()


def barred(ctx, rng, i):
    """A witness for named controllers only."""
    with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_TMP")) as top:
        major = rng.choice([1, 2])
        aids = []
        wit = Witness(ctx, rng, top, "wit", major, 1, aids=aids)
        try:
            for k in range(rng.randrange(2, 5)):
                ctl = kl.Ctl(rng, major=major, kind="JSON", wits=[wit], basic=False)
                ok = rng.random() < 0.5
                if ok:
                    aids.append(ctl.pre)
                raw, gm = kl.message(rng, ctl.last.raw, major=major, sigs=ctl.last.signatures(rng), gm=major)
                rep = wit.post(ctl.last.raw, raw[len(ctl.last.raw):])
                same(rep.status_code, 200 if ok else 400, f"answer to a controller that is {'' if ok else 'not '}served")
                wit.turn()
                same(len(wit.wigs(ctl.pre, ctl.last.said)), int(ok), "receipts held of a controller")
                ctx.saw("barred" if not ok else "receipted")
                # other messages are no events to receipt
                body = kl.rct(rng, ctl.last, major=major, kind="JSON")
                rep = wit.post(body, b"")
                same(rep.status_code, 400, "answer to a message that is no key event")
            ctx.case((wit.pre, tuple(aids)), nontrivial=True)
            ctx.sample(dict(major=major, served=len(aids)))
        finally:
            wit.close()


CASES = [("endpoint", endpoint, 160, 4000), ("rounds", rounds, 100, 2500), ("batch", batch, 60, 1500), ("barred", barred, 20, 300)]
