"""E04: see catalog.py."""
import contextlib
import copy
import tempfile

import vboot
from checks.H02 import Site
from vh import must, same

RULE = ("an observer with a growing, partial copy of a controller's log hears notices from its watchers, the log's witnesses, the controller and strangers, which are true, behind, ahead, forked, mislabelled, "
        "altered, misattributed or untrusted, and adjudicates again and again with different thresholds; non-trivial if at least three verdicts were reached")
REQUIRE = ["consistent", "lagging", "updates", "duplicitous", "silent_ahead", "bad_threshold", "fork_same", "fork_behind", "fork_ahead", "ahead_apart", "notices", "saved", "stale", "mismatched", "mislabelled",
           "untrusted", "misattributed", "altered", "own_notice", "witness_notice", "cut", "unobserved", "other_subject", "caught_up", "unknown_subject", "unheard", "default_threshold", "replayed", "again"]
ASSUME = ["transferable sources' notices are delivered in the order they were made, and no adjudicated log has superseding recovery"]


def fake(rng):
    from keri import core
    return core.Diger(ser=rng.randbytes(16)).qb64


class World:
    def __init__(self, ctx, rng, top):
        from keri import core
        from keri.core import eventing, routing, parsing
        self.ctx, self.rng = ctx, rng
        major = rng.choice([1, 2])
        self.ctl, self.wat, self.obs = [Site(top, n, major, rng) for n in ("ctl", "wat", "obs")]
        self.v = self.ctl.version
        self.kind = "JSON" if major == 1 else rng.choice(["JSON", "CESR"])
        self.kw = dict(version=self.v, kind=self.kind, gvrsn=self.v)
        self.nws = [self.wat.hby.makeHab(name=f"w{j}", transferable=False, version=self.v, kind=self.kind) for j in range(rng.randrange(3, 7))]
        self.wit, self.stranger = self.nws[0], self.nws[1]
        self.watchers = self.nws[2:]
        if rng.random() < 0.3:
            self.watchers.append(self.wit)
        self.subject = self.ctl.hby.makeHab(name="x", icount=1, isith="1", wits=[self.wit.pre], toad=1, version=self.v, kind=self.kind)
        self.pre = self.subject.pre
        self.me = self.obs.hby.makeHab(name="me", version=self.v, kind=self.kind)
        self.alt = self.obs.hby.makeHab(name="alt", version=self.v, kind=self.kind)
        habr = self.me.db.habs.get(self.me.pre)
        habr.watchers = [w.pre for w in self.watchers]
        self.me.db.habs.pin(self.me.pre, habr)
        rtr = routing.Router()
        self.rvy = routing.Revery(db=self.obs.db, rtr=rtr)
        self.kvy = eventing.Kevery(db=self.obs.db, rvy=self.rvy, lax=False, local=True)
        self.kvy.registerReplyRoutes(router=rtr)
        self.psr = parsing.Parser(version=self.v, kvy=self.kvy, rvy=self.rvy)
        self.states = [self.state()]        # true states by sn
        self.log = [self.witnessed(self.subject.msgOwnEvent(sn=0, framed=True, gvrsn=self.v))]
        self.known = -1                     # observer's sn
        self.sent = []                      # notices
        self.last = {}                      # source -> place of its last accepted notice
        self.view = {}                      # source -> (sn, dig)
        self.observed = {}                  # (cid, aid, oid) -> enabled
        self.forks = {}                     # sn -> dig of the forked log
        self.verdicts = set()

    def state(self):
        return copy.deepcopy(self.subject.kever.state()._asdict())

    def witnessed(self, msg):
        self.wat.hby.psr.parse(ims=bytearray(msg), local=True)
        self.wat.hby.kvy.processEscrows()
        return bytes(msg) + bytes(self.wit.receipt(self.subject.kever.serder, framed=True, **self.kw))

    def close(self):
        for s in (self.ctl, self.wat, self.obs):
            s.shut()

    def parse(self, msg):
        self.psr.parse(ims=bytearray(msg), local=True)
        self.rvy.processEscrowReply()
        self.kvy.processEscrows()
        self.judge()

    def judge(self, how=""):
        """The view of each source is its own latest notice."""
        db = self.obs.db
        got = {}
        for h in self.nws + [self.subject]:
            said = db.knas.get(keys=(self.pre, h.pre))
            if said is not None:
                ksr = db.ksns.get(keys=(said.qb64, h.pre)) or db.ksns.get(keys=(said.qb64,))
                must(ksr is not None and ksr.i == self.pre, f"key state saved for {h.name} is not of the subject")
                got[h.pre] = (int(ksr.s, 16), ksr.d)
        same(got, self.view, "key states as each source last reported them")
        same(self.obs.hby.kevers[self.pre].sner.num if self.pre in self.obs.hby.kevers else -1, self.known, "how far the log is known")

    # -------- what happens
    def grow(self):
        if self.rng.random() < 0.5:
            msg = self.subject.rotate(framed=True, toad=1, **self.kw)
        else:
            msg = self.subject.interact(framed=True, **self.kw)
        self.log.append(self.witnessed(msg))
        self.states.append(self.state())
        same(int(self.states[-1]["s"], 16), len(self.states) - 1, "sn of the next event")

    def learn(self):
        if self.known + 1 >= len(self.log):
            return self.grow()
        self.known += 1
        self.ctx.saw("caught_up")
        self.parse(self.log[self.known])

    def notice(self, hab, data, route=None):
        return hab.reply(route="/ksn/" + (route or hab.pre), data=data, **self.kw)

    def agrees(self, sn, dig):
        return sn < len(self.states) and self.states[sn]["d"] == dig

    def report(self):
        rng, ctx = self.rng, self.ctx
        ctx.saw("notices")
        hab = rng.choice(self.watchers + self.watchers + [self.wit, self.stranger])
        sn = rng.randrange(max(0, self.known - 1), len(self.states))
        data = copy.deepcopy(self.states[sn])
        how = rng.choice(["true", "true", "true", "true", "fork", "fork", "label", "altered", "as_other", "far", "shared_fork"])
        if how in ("fork", "shared_fork", "far"):
            if how == "far":
                sn = len(self.states) - 1 + rng.randrange(1, 3)
                data["s"] = f"{sn:x}"
            data["d"] = self.forks.setdefault(sn, fake(rng)) if how == "shared_fork" else fake(rng)
        if how == "label" and len(self.states) == 1:
            how = "true"
        if how == "label":
            other = rng.choice([n for n in range(len(self.states)) if n != sn])
            data["d"] = self.states[other]["d"]
            ctx.saw("mislabelled")
        if hab is self.wit:
            ctx.saw("witness_notice")
        trusted = hab is not self.stranger
        if hab is self.stranger:
            ctx.saw("untrusted")
        if self.known < 0:
            ctx.saw("unknown_subject")
        msg = bytes(self.notice(hab, data))
        if how == "as_other":
            msg = bytes(self.notice(hab, data, route=rng.choice([h for h in self.watchers + [self.wit] if h is not hab]).pre))
            ctx.saw("misattributed")
            trusted = False
        if how == "altered":
            sig = len(msg) - 1 - rng.randrange(1, 40)
            msg = msg[:sig] + (b"A" if msg[sig:sig + 1] != b"A" else b"B") + msg[sig + 1:]
            ctx.saw("altered")
            trusted = False
        ctx.log(dict(hab=hab.name, sn=sn, how=how, known=self.known, events=len(self.log)))
        self.sent.append((len(self.sent), hab, msg, trusted, sn, data["d"]))
        self.deliver(*self.sent[-1])

    def send(self, hab, sn, data):
        self.sent.append((len(self.sent), hab, bytes(self.notice(hab, data)), True, sn, data["d"]))
        self.deliver(*self.sent[-1])

    def again(self):
        """A notice delivered again, perhaps out of order."""
        if self.sent:
            self.ctx.saw("again")
            self.ctx.log("again")
            self.deliver(*self.rng.choice(self.sent[-6:]))

    def deliver(self, at, hab, msg, trusted, sn, dig):
        ctx = self.ctx
        if not trusted:
            return self.parse_quiet(msg)
        if sn < self.known:
            ctx.saw("stale")
        elif at < self.last.get(hab.pre, -1):
            ctx.saw("replayed")
        elif sn == self.known and not self.agrees(sn, dig):
            ctx.saw("mismatched")
        elif not any(self.states[n]["d"] == dig and n != sn for n in range(self.known + 1)):
            self.view[hab.pre] = (sn, dig)
            self.last[hab.pre] = at
            ctx.saw("saved")
        self.parse(msg)

    def parse_quiet(self, msg):
        with contextlib.suppress(Exception):
            self.psr.parse(ims=bytearray(msg), local=True)
        self.judge()

    def own(self):
        """The controller's own notice, once its keys are known."""
        if self.known != len(self.states) - 1:
            return
        self.ctx.saw("own_notice")
        self.view[self.pre] = (self.known, self.states[-1]["d"])
        self.parse(self.notice(self.subject, self.states[-1]))

    def watch(self):
        rng = self.rng
        hab = self.me if rng.random() < 0.8 else self.alt
        aid = rng.choice(self.watchers + [self.stranger]).pre
        oid = self.pre if rng.random() < 0.85 else fake(rng)
        on = rng.random() < 0.75
        route = f"/watcher/{aid}/" + ("add" if on else "cut")
        if not on and (hab.pre, aid, oid) not in self.observed:
            return
        msg = hab.reply(route=route, data=dict(cid=hab.pre, oid=oid), **self.kw)
        self.parse(msg)
        if not on:
            self.ctx.saw("cut")
        if hab is self.alt:
            self.ctx.saw("unobserved")
        if oid != self.pre:
            self.ctx.saw("other_subject")
        self.observed[(hab.pre, aid, oid)] = on
        same({k: r.enabled for k, r in self.obs.db.obvs.getTopItemIter()}, self.observed, "what is observed")

    def adjudicate(self):
        from keri.app import watching
        rng, ctx = self.rng, self.ctx
        if self.known < 0:
            return
        hab = self.me if rng.random() < 0.8 else self.alt
        wids = {a for (c, a, o), on in self.observed.items() if c == hab.pre and o == self.pre and on}
        if rng.random() < 0.5:          # to make agreement likely
            for w in self.nws:
                if w.pre in wids and w is not self.stranger and rng.random() < 0.7 and not any(d not in [x["d"] for x in self.states] for d in [self.view.get(w.pre, (0, self.states[0]["d"]))[1]]):
                    n = rng.choice([len(self.states) - 1, len(self.states) - 1, self.known])
                    self.send(w, n, self.states[n])
        if rng.random() < 0.35 and self.known < len(self.states):     # and disagreement
            n = self.known + 1
            for w in self.watchers:
                if w.pre in wids and rng.random() < 0.6 and (self.view.get(w.pre) or (0,))[0] <= n:
                    dig = self.forks.setdefault(n, fake(rng)) if rng.random() < 0.6 or n >= len(self.states) else self.states[n]["d"]
                    self.send(w, n, dict(copy.deepcopy(self.states[min(n, len(self.states) - 1)]), s=f"{n:x}", d=dig))
        if rng.random() < 0.2:
            self.learn()
        adj = watching.Adjudicator(hby=self.obs.hby, hab=hab)
        toad = rng.choice([None, None, 1, 2, len(wids), len(wids) + 1])
        need = toad or len(wids)
        was = self.obs.hby.kevers[self.pre].state()._asdict()
        msg = dict(oid=self.pre)
        if toad is not None:
            msg["toad"] = toad
        else:
            ctx.saw("default_threshold")
        adj.msgs.append(msg)
        if need > len(wids):
            ctx.saw("bad_threshold")
            try:
                adj.performAdjudications()
            except ValueError:
                return
            must(False, "a threshold of more than the observers is accepted")
        adj.performAdjudications()
        same(self.obs.hby.kevers[self.pre].state()._asdict(), was, "local key state after adjudication")
        cues = list(adj.cues)
        must(len(cues) <= 1, "more than one verdict")
        cue = cues[0] if cues else None
        heard = {w: self.view[w] for w in wids if w in self.view}
        if len(heard) < len(wids):
            ctx.saw("unheard")
        against = {w for w, (s, d) in heard.items() if s <= self.known and not self.agrees(s, d)}
        ahead = {w: v for w, v in heard.items() if v[0] > self.known}
        behind = {w for w, (s, d) in heard.items() if s < self.known and w not in against}
        at = {}
        for w, (s, d) in ahead.items():
            at.setdefault(s, set()).add(d)
        torn = any(len(ds) > 1 for ds in at.values())
        kind = cue["kin"] if cue else None
        if cue:
            same((cue["cid"], cue["oid"], set(cue["wids"])), (hab.pre, self.pre, wids), "whose verdict")

        def named(states):
            for s in states:
                same((s.sn, s.dig), heard.get(s.wit), "state named in a verdict")
            return {s.wit for s in states}

        if against:
            same(kind, "keyStateDuplicitous", "verdict on a state that contradicts the log")
            same(named(cue["dups"]), against, "who contradicts")
            for w in against:
                ctx.saw("fork_same" if heard[w][0] == self.known else "fork_behind")
            ctx.saw("duplicitous")
        elif torn:
            same(kind, "keyStateDuplicitous", "verdict on watchers that contradict each other")
            conflict = {w for w, (s, d) in ahead.items() if len(at[s]) > 1}
            must(conflict <= named(cue["dups"]) <= set(ahead), "who contradicts")
            ctx.saw("fork_ahead")
            ctx.saw("duplicitous")
        elif ahead:
            if len(at) > 1:
                ctx.saw("ahead_apart")
            if len(ahead) >= need:
                same(kind, "keyStateUpdate", f"verdict with {len(ahead)} of {need} ahead")
                same(named(cue["aheads"]), set(ahead), "who is ahead")
                must(cue["sn"] in at, "sn of the update")
                ctx.saw("updates")
            else:
                must(kind is None, f"verdict {kind} with {len(ahead)} of {need} ahead")
                ctx.saw("silent_ahead")
        elif behind:
            same(kind, "keyStateLagging", "verdict on watchers behind")
            same(named(cue["behind"]), behind, "who is behind")
            ctx.saw("lagging")
        else:
            same(kind, "keyStateConsistent", "verdict on watchers that agree")
            same(named(cue["states"]), set(heard), "who agrees")
            ctx.saw("consistent")
        self.verdicts.add((kind, len(heard), len(wids)))


def history(ctx, rng, i):
    with tempfile.TemporaryDirectory() as top:
        w = World(ctx, rng, top)
        try:
            moves = [w.grow] * 2 + [w.learn] * 2 + [w.report] * 6 + [w.again] * 2 + [w.own] + [w.watch] * 2 + [w.adjudicate] * 5
            for _ in range(3):
                w.watch()
            n = rng.randrange(20, 60)
            for _ in range(n):
                rng.choice(moves)()
            ctx.case((i, tuple(sorted(map(str, w.verdicts)))), len(w.verdicts) >= 3)
            ctx.log(dict(steps=n, known=w.known, events=len(w.log), verdicts=sorted(map(str, w.verdicts))))
        finally:
            w.close()


CASES = [("history", history, 160, 2500)]
