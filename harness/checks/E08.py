"""E08: queries go out once, to the right place, and end with the answer."""
import contextlib
import datetime
import io
import os
import shutil
import tempfile

import vboot  # noqa
from checks.E05 import Host
from checks.H02 import Site
from vh import must, same

RULE = ("a controller asks witnesses and agents of other controllers for events, seals and key states while the logs it holds grow piecewise; the queries that arrive and the moments at which the "
        "questions are done are compared with the logs; non-trivial if a question was answered")
REQUIRE = ["asked", "answered", "known_before", "sn", "anchor", "state", "behind", "agent", "witness", "named_witness", "stranger", "stranger_named", "unanswered", "piecewise", "several", "far"]
ASSUME = ["requests reach a host whole", "the controllers and hosts run in one process over stand-ins for sockets"]


class World:
    def __init__(self, ctx, rng, top):
        from hio.core.http import clienting
        from hio.help import decking
        from keri.core import eventing, parsing, routing
        self.ctx, self.rng = ctx, rng
        self.major = rng.choice([1, 2])
        self.hosts = [Host(ctx, rng, top, f"h{j}", self.major, 6000 + j) for j in range(rng.randrange(2, 4))]
        self.by = {h.pre: h for h in self.hosts}
        self.site = Site(top, "me", self.major, rng)
        self.v = self.site.version
        self.hab = self.site.hby.makeHab(name="me", version=self.v, kind="JSON", icount=1, isith="1")
        self.rvy = routing.Revery(db=self.site.hby.db)
        self.kvy = eventing.Kevery(db=self.site.hby.db, lax=True, local=False, rvy=self.rvy, cues=decking.Deck())
        self.kvy.registerReplyRoutes(router=self.rvy.rtr)
        self.psr = parsing.Parser(framed=True, kvy=self.kvy, rvy=self.rvy, version=self.v)
        self.clock = 0
        for h in self.hosts:
            msg = bytes(h.hab.makeLocScheme(url=f"http://127.0.0.1:{h.port}/", scheme="http", stamp=self.stamp(), version=self.v, gvrsn=self.v, kind="JSON"))
            self.site.hby.psr.parse(ims=bytearray(msg), local=True)
        self.osite = Site(top, "oth", self.major, rng)
        self.others = []
        self.agents, self.wits = {}, {}
        self.logs = {}          # pre: messages in order of first seeing
        self.fed = {}           # pre: how many of them the asker has
        self.seals = {}         # pre: list of (sn, seal)
        self.states = {}        # pre: notices that came, sequence numbers
        for j in range(rng.randrange(1, 3)):
            self.join(j)
        self.queries = []       # (host, serder)
        clienting.Client.transport = self.carry
        clienting.Client.deferred = True

    def stamp(self):
        from keri.help import helping
        self.clock += 1
        return helping.toIso8601(datetime.datetime(2030, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=self.clock))

    def join(self, j):
        rng = self.rng
        ws = [h.pre for h in rng.sample(self.hosts, rng.randrange(1, 3))]
        hab = self.osite.hby.makeHab(name=f"o{j}", version=self.v, kind="JSON", icount=1, isith="1", wits=ws, toad=len(ws))
        self.others.append(hab)
        self.wits[hab.pre] = ws
        self.seals[hab.pre] = []
        self.spread(hab)
        for _ in range(rng.randrange(2, 7)):
            if rng.random() < 0.3:
                hab.rotate(version=self.v, kind="JSON")
            else:
                seal = dict(i=hab.pre, s=f"{rng.randrange(4):x}", d="E" + "A" * 42 + rng.choice("AB"))
                hab.interact(data=[seal], version=self.v, kind="JSON")
                self.seals[hab.pre].append((hab.kever.sn, seal))
            self.spread(hab)
        self.logs[hab.pre] = [bytes(m) for m in self.osite.hby.db.clonePreIter(pre=hab.pre, version=self.v)]
        self.fed[hab.pre] = 0
        if rng.random() < 0.7:
            self.feed(hab.pre, rng.randrange(1, len(self.logs[hab.pre]) + 1))
        if self.fed[hab.pre] and rng.random() < 0.5:
            eid = rng.choice(self.hosts)
            self.agents[hab.pre] = eid.pre
            msg = bytes(hab.makeEndRole(eid=eid.pre, role="agent", allow=True, stamp=self.stamp(), version=self.v, gvrsn=self.v, kind="JSON"))
            self.site.hby.psr.parse(ims=bytearray(msg), local=True)

    def serving(self, pre):
        """Who is to be asked about a controller: its agent, once its word for that is taken."""
        eid = self.agents.get(pre)
        end = self.site.hby.db.ends.get(keys=(pre, "agent", eid)) if eid else None
        return ("agent", [eid]) if end is not None and end.allowed else ("witness", self.wits[pre])

    def spread(self, hab):
        """The last event goes to the hosts and its witnesses receipt it."""
        ser = hab.kever.serder
        for h in self.hosts:
            h.psr.parse(ims=bytearray(self.osite.hby.db.cloneEvtMsg(pre=hab.pre, fn=hab.kever.sn, dig=ser.saidb, version=self.v)), local=True)
        rcts = [bytes(self.by[w].hab.witness(ser, version=self.v, gvrsn=self.v)) for w in hab.kever.wits]
        for psr in [self.osite.hby.psr] + [h.psr for h in self.hosts]:
            for r in rcts:
                psr.parse(ims=bytearray(r), local=True)
        for h in self.hosts:
            h.kvy.processEscrows()
            must(hab.pre in h.hab.kevers and h.hab.kevers[hab.pre].sn == hab.kever.sn, "harness: a host did not take an event in")
            h.kvy.cues.clear()

    def feed(self, pre, n=1):
        for _ in range(n):
            if self.fed[pre] < len(self.logs[pre]):
                self.psr.parse(ims=bytearray(self.logs[pre][self.fed[pre]]))
                self.fed[pre] += 1
        same(self.sn(pre), self.fed[pre] - 1, "events of the other controller taken in")

    def sn(self, pre):
        """Events that the asker has accepted."""
        kever = self.site.hby.kevers.get(pre)
        return -1 if kever is None else kever.sn

    def carry(self, client, req):
        from keri.core import serdering
        hs = {k: v.decode() if isinstance(v, (bytes, bytearray)) else str(v) for k, v in (req["headers"] or {}).items()}
        h = next((h for h in self.hosts if h.port == client.port), None)
        must(h is not None, f"a query goes to port {client.port}, which nobody named")
        body = bytes(req["body"])
        ser = serdering.SerderKERI(raw=bytearray(body))
        if ser.ked["t"] == "qry":
            self.queries.append((h, ser))
        return h.take(req["method"], req["path"], body, hs)

    def close(self):
        from hio.core.http import clienting
        clienting.Client.transport = None
        clienting.Client.deferred = False
        for h in self.hosts:
            h.close()
        self.site.shut()
        self.osite.shut()


class Question:
    """One querier and what it should do."""

    def __init__(self, w, hab, kind):
        from hio.base import doing
        from keri.app import querying
        rng = w.rng
        self.w, self.pre, self.kind = w, hab.pre, kind
        kwa = dict(version=w.v, gvrsn=w.v, kind="JSON")
        self.want = dict(i=hab.pre)
        self.named = None
        self.state = None
        self.done = False
        w.ctx.saw(kind)
        if kind == "sn":
            self.sn = rng.choice([rng.randrange(0, len(w.logs[hab.pre]) + 1)] * 4 + [rng.randrange(10, 600)])
            fn = rng.choice([None, 0, 2, 11, 300])
            w.ctx.saw("far", self.sn > 9)
            self.want.update(s=f"{self.sn:x}", fn=f"{fn or 0:x}")
            if rng.random() < 0.5:
                self.named = [h.pre for h in rng.sample(w.hosts, rng.randrange(1, 3))]
                w.ctx.saw("named_witness")
            doer = querying.SeqNoQuerier(hby=w.site.hby, hab=w.hab, pre=hab.pre, sn=self.sn, fn=fn, wits=self.named, **kwa)
        elif kind == "anchor":
            if w.seals[hab.pre] and rng.random() < 0.8:
                self.sn, seal = rng.choice(w.seals[hab.pre])
                self.sn = min(sn for sn, s in w.seals[hab.pre] if s == seal)
            else:
                self.sn, seal = 10**6, dict(i=hab.pre, s="9", d="E" + "A" * 42 + "C")
            self.want.update(a=seal, s="0", fn="0")
            doer = querying.AnchorQuerier(hby=w.site.hby, hab=w.hab, pre=hab.pre, anchor=seal, **kwa)
        else:
            self.sn = None
            self.want.update(s="0", fn="0")
            doer = querying.KeyStateNoticer(hby=w.site.hby, hab=w.hab, pre=hab.pre, cues=w.kvy.cues, **kwa)
        self.route = "ksn" if kind == "state" else "logs"
        self.doer = doer
        self.doist = doing.Doist(doers=[doer], tock=0.25)
        self.doist.enter()
        self.asked = 0
        self.log = False
        self.turns, self.ok = 0, set()      # who served at some time since

    def known(self):
        return self.w.sn(self.pre) >= 0

    def met(self):
        return self.known() and self.sn is not None and self.w.sn(self.pre) >= self.sn

    def turn(self):
        """One turn; what it sends and whether it ends are what they should be."""
        w, ctx = self.w, self.w.ctx
        was = len(w.queries)
        due = self.met()
        self.turns += 1
        self.ok.update(w.serving(self.pre)[1])
        with contextlib.redirect_stderr(io.StringIO()):
            self.doist.recur()
        done = not self.doist.deeds
        new = w.queries[was:]
        for h, ser in new:
            ctx.log("query", self.kind, ser.ked["r"], ser.ked["q"])
            q = dict(ser.ked["q"])
            same(q.pop("src"), h.pre, "host that a query names")
            must(h.pre in (self.named or self.ok), "a query goes to a host that does not serve the one it is about")
            ctx.saw("asked")
            ctx.saw("named_asked", bool(self.named))
            ctx.saw(w.serving(self.pre)[0], not self.named)
            self.asked += 1
            same(ser.ked["i"], w.hab.pre, "asker of a query") if "i" in ser.ked else None
            if self.kind == "state" and self.asked == 2:
                same((ser.ked["r"], q["i"]), ("logs", self.pre), "query after a notice of a newer state")
                self.log = True
            else:
                same((ser.ked["r"], q), (self.route, self.want), "query")
        must(self.asked <= (2 if self.state is not None and self.kind == "state" else 1), "a query is sent again")
        must(self.asked or done or not self.named or self.turns < 16, f"a question ({self.kind} {self.sn}) to a named witness is not sent")
        if due and not done:
            must(False, f"a question for what the log already has ({self.kind} {self.sn}) goes on")
        if done and not self.met():
            must(False, f"a question ({self.kind} {self.sn}) ends before its answer, at event {w.sn(self.pre)}")
        if done:
            self.done = True
            ctx.saw("answered")
        return done


def case_ask(ctx, rng, i):
    top = tempfile.mkdtemp(prefix="e08")
    w = None
    try:
        w = World(ctx, rng, top)
        open_, states = [], {}
        got = 0
        for _ in range(rng.randrange(20, 60)):
            act = rng.random()
            if act < 0.25:
                hab = rng.choice(w.others)
                kind = rng.choice(["sn", "sn", "anchor", "state"])
                if kind == "state" and (w.sn(hab.pre) < 0 or any(q.kind == "state" for q in open_)):
                    kind = "anchor"
                q = Question(w, hab, kind)
                ctx.saw("stranger", not q.known())
                ctx.saw("stranger_named", not q.known() and bool(q.named))
                ctx.saw("known_before", q.met())
                open_.append(q)
                ctx.saw("several", len(open_) > 1)
            elif act < 0.45:
                hab = rng.choice(w.others)
                w.feed(hab.pre, rng.randrange(1, 3))
                ctx.saw("piecewise")
            elif act < 0.55:
                for q in open_:
                    # the host answers what it was asked for a state
                    if q.kind == "state" and q.asked == 1 and q.state is None:
                        h, ser = [x for x in w.queries if x[1].ked["r"] == "ksn"][-1]
                        while w.kvy.cues:
                            w.kvy.cues.popleft()
                        h.kvy.cues.clear()
                        cue = h.hab.kevers[q.pre].state()._asdict()
                        msg = bytes(h.hab.reply(route=f"/ksn/{h.pre}", data=cue, stamp=w.stamp(), version=w.v, gvrsn=w.v, kind="JSON"))
                        w.psr.parse(ims=bytearray(msg))
                        w.rvy.processEscrowReply()
                        if any(c["kin"] == "keyStateSaved" for c in w.kvy.cues):
                            for c in list(w.kvy.cues):
                                if c["kin"] != "keyStateSaved":
                                    w.kvy.cues.remove(c)
                            q.state = h.hab.kevers[q.pre].sn
                            q.sn = q.state
                            ctx.saw("behind", w.sn(q.pre) < q.sn)
            if not any(q.state is not None for q in open_ if q.kind == "state"):
                while w.kvy.cues:
                    w.kvy.cues.popleft()
            for q in list(open_):
                if q.turn():
                    open_.remove(q)
                    got += 1
        for _ in range(8):
            for q in list(open_):
                if q.turn():
                    open_.remove(q)
                    got += 1
        for q in open_:
            ctx.saw("unanswered")
            if q.named or q.known():
                must(q.asked >= 1, f"a question ({q.kind} {q.sn}) is never sent")
            if q.kind == "state" and q.state is not None:
                must(q.log, "the log is not asked for after a notice of a newer state")
            same(q.doist.deeds and True, True, "question goes on")
        ctx.case(("ask", w.major, len(w.others), len(w.hosts), i), got > 0)
    finally:
        if w is not None:
            w.close()
        shutil.rmtree(top, ignore_errors=True)


CASES = [("ask", case_ask, 150, 2500)]
