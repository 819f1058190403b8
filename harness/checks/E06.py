"""E06: see catalog.py."""
import os
import tempfile

import vboot  # noqa
from checks import E05
from checks.H02 import Site
from checks.H04 import Net, Witness
from vh import must, same

RULE = ("a controller asks its delegator's approval for its inception and rotations, with and without witnesses, while the delegator seals the right event, wrong ones or nothing, its log arrives early, late or in parts, further events "
        "are made meanwhile and the controller restarts; non-trivial if an approval completed")
REQUIRE = ["asked", "approved", "completed", "waits", "wrong_seal", "ixn_meanwhile", "restart", "witnessed", "unwitnessed", "rotation", "two_pending", "request_arrived", "sealed_early", "published"]
ASSUME = ["the controller, its witnesses and the delegator's mailbox run in one process over stand-ins for sockets"]


class World:
    def __init__(self, ctx, rng, top):
        from hio.core.http import clienting
        self.ctx, self.rng = ctx, rng
        self.major = rng.choice([1, 2])
        self.site = Site(top, "del", self.major, rng)
        self.v = self.site.version
        self.kwa = dict(version=self.v, kind="JSON")
        self.wits = [Witness(ctx, rng, top, f"w{j}", self.major, 5000 + j) for j in range(rng.choice([0, 0, 1, 2]))]
        self.host = E05.Host(ctx, rng, top, "host", self.major, 6000)
        self.net = Net(ctx, rng, self.wits)
        clienting.Client.transport = self.carry
        clienting.Client.deferred = True
        self.bsite = Site(top, "boss", self.major, rng)
        self.boss = self.bsite.hby.makeHab(name="boss", icount=1, isith="1", **self.kwa)
        self.heard = 0                     # boss's events that the controller has
        self.tell()
        self.clock = 0
        for w in self.wits:
            self.place(w.hab, w.port)
        self.place(self.host.hab, 6000)
        msg = self.boss.makeEndRole(eid=self.host.pre, role="mailbox", allow=True, gvrsn=self.v, **self.kwa)
        self.site.hby.psr.parse(ims=bytearray(msg), local=True)
        self.site.hby.makeHab(name="proxy", icount=1, isith="1", **self.kwa)
        self.site.hby.makeHab(name="me", icount=1, isith="1", wits=[w.pre for w in self.wits], delpre=self.boss.pre, **self.kwa)
        self.pre = self.hab.pre
        self.asked = []                    # serders
        self.lives = 0
        self.lost = {}
        self.start()

    @property
    def hab(self):
        return self.site.hby.habByName("me")

    @property
    def db(self):
        return self.site.hby.db

    def carry(self, client, req):
        if client.port == 6000:
            hs = {k: v.decode() if isinstance(v, (bytes, bytearray)) else str(v) for k, v in (req["headers"] or {}).items()}
            return self.host.take(req["method"], req["path"], req["body"], hs)
        return self.net(client, req)

    def place(self, hab, port):
        for s in [self.site.hby] + [w.site.hby for w in self.wits]:
            if hab.pre not in s.kevers:
                s.psr.parse(ims=bytearray(hab.msgOwnInception(framed=True, gvrsn=self.v)), local=True)
            s.psr.parse(ims=bytearray(hab.makeLocScheme(url=f"http://127.0.0.1:{port}/", scheme="http", gvrsn=self.v, **self.kwa)), local=True)

    def start(self):
        from hio.base import doing
        from keri.app import delegating
        self.anchorer = delegating.Anchorer(hby=self.site.hby, proxy=self.site.hby.habByName("proxy"), version=self.v)
        self.doist = doing.Doist(doers=[self.anchorer], tock=0.125)
        self.doist.enter()

    def restart(self):
        self.lives += 1
        came = [bytes(m) for m in self.host.held().get(f"{self.boss.pre}/delegate", [])]
        for ser in self.asked:
            self.lost[ser.said] = not any(m.startswith(ser.raw) for m in came) or self.lost.get(ser.said, False)
        self.doist.exit()
        if self.rng.random() < 0.5:
            self.site.restart()
        self.start()
        self.ctx.saw("restart")

    def tell(self, upto=None):
        """The controller hears of the delegator's log."""
        upto = self.boss.kever.sn + 1 if upto is None else upto
        for k, m in enumerate(self.bsite.hby.db.clonePreIter(pre=self.boss.pre, version=self.v)):
            if self.heard <= k < upto:
                self.site.hby.psr.parse(ims=bytearray(m), local=True)
        self.heard = max(self.heard, upto)
        same(self.site.hby.kevers[self.boss.pre].sn, self.heard - 1, "harness: delegator's log at the controller")

    def seals(self, upto):
        """said of a delegated event: sealing events of the delegator, of the first upto ones."""
        out = {}
        for sn in range(upto):
            ser = self.bsite.hby.db.evts.get(keys=(self.boss.pre, self.bsite.hby.db.kels.getLast(keys=self.boss.pre, on=sn)))
            for a in ser.ked.get("a") or []:
                if list(a) == ["i", "s", "d"]:
                    out.setdefault((a["i"], a["s"], a["d"]), []).append((ser.sn, ser.said))
        return out

    def done(self, ser):
        from keri.core import coring
        return self.anchorer.complete(coring.Prefixer(qb64=self.pre), coring.Number(num=ser.sn, code=coring.NumDex.Huge), coring.Diger(qb64=ser.said))

    def turns(self, n):
        import hio.base.doing as doing
        for _ in range(n):
            self.doist.recur()
            must(self.doist.deeds, "the approval service died")
        for w in self.wits:
            w.turn()

    def judge(self, what, settled):
        seals = self.seals(self.heard)
        for ser in self.asked:
            at = seals.get((self.pre, ser.snh, ser.said))
            got = self.done(ser)
            must(at or not got, f"{what}: approval of event {ser.sn} is complete without the delegator's seal")
            if at and settled:
                must(got, f"{what}: approval of event {ser.sn} by its delegator does not complete")
            self.ctx.saw("waits", not at)
            couple = self.db.aess.get(keys=(self.pre, ser.said))
            if got:
                must(couple is not None, f"{what}: no approval kept of a completed event")
                self.ctx.saw("completed")
            if couple is not None:
                must(at and (couple[0].sn, couple[1].qb64) in at, f"{what}: approval kept of event {ser.sn} is no event of the delegator that seals it")
        # nothing else is approved
        for sn in range(self.hab.kever.sn + 1):
            said = self.db.kels.getLast(keys=self.pre, on=sn)
            ser = self.db.evts.get(keys=(self.pre, said))
            couple = self.db.aess.get(keys=(self.pre, said))
            if couple is not None:
                must(ser.ilk in ("dip", "drt"), f"{what}: an approval is kept of an {ser.ilk}, which needs none")
                must((couple[0].sn, couple[1].qb64) in seals.get((self.pre, ser.snh, said), []), f"{what}: approval kept of event {sn}, which the delegator did not seal")

    def requests(self):
        """Each asked event has come to the delegator's mailbox, after a request for it, as often as asked."""
        from keri.core import serdering
        got = []
        for msg in self.host.held().get(f"{self.boss.pre}/delegate", []):
            ser = serdering.SerderKERI(raw=bytearray(msg))
            if ser.ilk == "exn":
                same(ser.ked["r"], "/delegate/request", "route of a request")
                got.append(("req", ser.ked["e"]["evt"]["d"]))
                same(ser.ked["a"]["delpre"], self.boss.pre, "delegator that a request names")
            else:
                must(len(msg) > len(ser.raw), "an event without signatures is sent to the delegator")
                got.append(("evt", ser.said))
        for ser in self.asked:
            least = 0 if self.lost.get(ser.said) else 1      # a restart may lose what waits to be sent
            must(all(least <= got.count((x, ser.said)) <= 1 for x in ("req", "evt")), f"event {ser.sn} reaches the delegator's mailbox {got.count(('evt', ser.said))} times, requests for it {got.count(('req', ser.said))} times")
            if not least:
                continue
            must(got.index(("req", ser.said)) < got.index(("evt", ser.said)), "an event reaches the delegator before the request")
            self.ctx.saw("request_arrived")
        must({x for _, x in got} <= {ser.said for ser in self.asked}, "events that were not asked for are sent to the delegator")

    def close(self):
        from hio.core.http import clienting
        clienting.Client.transport = None
        clienting.Client.deferred = False
        for w in self.wits:
            w.close()
        self.host.close()
        self.site.shut()
        self.bsite.shut()


def approve(ctx, rng, i):
    """Anchorer."""
    from keri.app import agenting
    agenting.print = lambda *a, **k: None
    with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_TMP")) as top:
        w = World(ctx, rng, top)
        try:
            n = 0
            ctx.saw("witnessed" if w.wits else "unwitnessed")
            for r in range(rng.randrange(1, 4)):
                if r:
                    w.hab.rotate(**w.kwa)
                    ctx.saw("rotation")
                ser = w.hab.kever.serder
                right = dict(i=w.pre, s=ser.snh, d=ser.said)
                if rng.random() < 0.15:
                    w.boss.interact(data=[right], **w.kwa)
                    ctx.saw("sealed_early")
                    if rng.random() < 0.5:
                        w.tell()
                w.anchorer.delegation(pre=w.pre, sn=ser.sn if rng.random() < 0.5 else None)
                w.asked.append(ser)
                ctx.saw("asked")
                w.turns(rng.choice([5, 400, 400]))
                w.judge("before", False)
                last = r and len([s for s in w.asked if not w.done(s)]) > 1
                ctx.saw("two_pending", bool(last))
                for _ in range(rng.randrange(0, 6)):
                    x = rng.random()
                    if x < 0.2:
                        w.hab.interact(data=[], **w.kwa)
                        for x_ in w.wits:
                            x_.psr.parse(ims=bytearray(w.hab.msgOwnEvent(sn=w.hab.kever.sn, framed=True, gvrsn=w.v)), local=True)
                        ctx.saw("ixn_meanwhile")
                    elif x < 0.4:
                        bad = dict(right)
                        k = rng.choice("isd")
                        if k == "i":
                            bad["i"] = w.site.hby.habByName("proxy").pre
                        elif k == "s":
                            bad["s"] = "%x" % (ser.sn + 1)
                        else:
                            bad["d"] = w.boss.kever.serder.said
                        w.boss.interact(data=[bad], **w.kwa)
                        ctx.saw("wrong_seal")
                    elif x < 0.55:
                        w.boss.interact(data=[right], **w.kwa)
                        ctx.saw("approved")
                    elif x < 0.7:
                        w.boss.interact(data=[], **w.kwa)
                    elif x < 0.85:
                        w.tell(rng.randrange(w.heard, w.boss.kever.sn + 2))
                    else:
                        w.restart()
                    w.turns(rng.choice([1, 3, 20, 300]))
                    w.judge("meanwhile", False)
                if rng.random() < 0.75:
                    w.boss.interact(data=[right], **w.kwa)
                    ctx.saw("approved")
                if rng.random() < 0.75:
                    w.tell()
                w.turns(900)
                w.judge("then", True)
            w.requests()
            if w.wits and all(w.done(s) for s in w.asked):
                top_ = max(sn for s in w.asked for sn, _ in [(w.db.aess.get(keys=(w.pre, s.said))[0].sn, 0)])
                for x in w.wits:
                    must(x.site.hby.kevers.get(w.boss.pre) is not None and x.site.hby.kevers[w.boss.pre].sn >= top_, "a witness lacks the delegator's log that approves")
                    ctx.saw("published")
            n = sum(w.done(s) for s in w.asked)
            ctx.case((w.pre, n, w.heard), nontrivial=n > 0)
            ctx.sample(dict(major=w.major, witnesses=len(w.wits), asked=len(w.asked), completed=n))
        finally:
            w.close()


CASES = [("approve", approve, 120, 3000)]
