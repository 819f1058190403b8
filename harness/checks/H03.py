"""H03: see catalog.py."""
import tempfile

import vboot
import lmdb
import cesrlib as cl
import kellib as kl
from checks.H02 import Site
from vh import must, same

RULE = ("each case gives several controllers, each with its own stores and a single key identifier, a group identifier (random order of members, signing and next members differing, numeric and weighted thresholds, "
        "witnesses, delegation, both versions); members contribute to inception, interactions and rotations in random order by every offered way, and contributions travel alone or gathered, repeated, "
        "altered, to members and an outside validator, with restarts in between; non-trivial if one member's contribution was not enough for at least two events")
REQUIRE = ["events", "partial", "accepted", "gathered", "repeated", "altered_refused", "member_states", "outside_states", "rotations", "interactions", "weighted", "witnessed", "delegated", "v1", "v2",
           "restarts", "members_changed", "joined", "rotated_by_event", "rotated_by_arguments", "competing", "counselor_done", "counselor_waiting", "counselor_not_done", "next_only", "audited_events",
           "misused", "rotated_alone", "mux_approved", "mux_waiting", "mux_replayed", "swapped_refused"]
ASSUME = ["members deliver their own identifiers' events to each other before the group uses their keys"]


class Party:
    """One member with its stores."""

    def __init__(self, top, name, major, rng):
        self.site = Site(top, name, major, rng)
        self.name = name
        self.hab = self.site.hby.makeHab(name=name, version=self.site.version, icount=1, ncount=1, isith="1", nsith="1")
        self.pre = self.hab.pre
        self.ghab = None
        self.props = []
        self.got = {}              # said -> {index: ondex or None} of what counts here

    @property
    def hby(self):
        return self.site.hby

    def hear(self, data, gm, local=False):
        from keri.core import eventing, parsing
        from keri import kering
        kvy = eventing.Kevery(db=self.site.db, lax=False, local=local, rvy=self.hby.rvy)
        parsing.Parser(version=kering.Vrsn_1_0 if gm == 1 else kering.Vrsn_2_0).parse(ims=bytearray(data), kvy=kvy, local=local)
        self.settle()

    def settle(self):
        for _ in range(6):
            self.hby.kvy.processEscrows()

    def counsel(self, n=4):
        """Let this member's coordinator look after its proposals."""
        from keri.app import grouping
        c = grouping.Counselor(hby=self.hby, version=self.site.version)
        for _ in range(n):
            c.processEscrows()
        return c

    def propose(self, serder):
        """Register an own proposal with the coordinator."""
        from keri.core import coring
        c = self.counsel(0)
        c.start(self.ghab, coring.Prefixer(qb64=serder.pre), coring.Number(num=serder.sn, code=coring.NumDex.Huge), coring.Diger(qb64=serder.said))
        self.props.append(serder)

    def complete(self, serder, c=None):
        from keri import kering
        from keri.core import coring
        c = c or self.counsel()
        try:
            return c.complete(coring.Prefixer(qb64=serder.pre), coring.Number(num=serder.sn, code=coring.NumDex.Huge), coring.Diger(qb64=serder.said))
        except kering.ValidationError:     # some other event is complete there
            return None

    def restart(self):
        g = self.ghab.pre if self.ghab else None
        self.site.restart()
        self.hab = self.hby.habByPre(self.pre)
        self.ghab = self.hby.habByPre(g) if g else None
        must(g is None or self.ghab is not None, "group identifier is gone after a restart")


class World:
    def __init__(self, ctx, rng, top, n=None, wits=True):
        self.ctx, self.rng = ctx, rng
        self.major = rng.choice([1, 2])
        ctx.saw(f"v{self.major}")
        self.kind = rng.choice(["JSON", "JSON", "CBOR", "MGPK"])
        self.parties = [Party(top, f"m{j}", self.major, rng) for j in range(n or rng.randint(2, 4))]
        self.v = self.parties[0].site.version
        self.vkw = dict(version=self.v, kind=self.kind)
        self.out = kl.Validator(name="outside")
        self.outgot = {}
        self.other = Site(top, "other", self.major, rng)
        self.wits = [self.other.hby.makeHab(name=f"w{j}", transferable=False, version=self.v).pre for j in range(2)] if wits and rng.random() < 0.35 else []
        self.boss = Site(top, "boss", self.major, rng)
        self.delpre = self.boss.hby.makeHab(name="boss", version=self.v, icount=1, ncount=1).pre if wits and rng.random() < 0.25 else None
        ctx.saw("delegated", bool(self.delpre))
        self.gpre = None
        self.events = []           # accepted: (serder, signing info)
        self.short = 0
        self.introduce()

    def close(self):
        for p in self.parties:
            p.site.shut()
        self.other.shut()
        self.boss.shut()
        self.out.close()

    def introduce(self):
        """Everybody gets every member's own log and the delegator's."""
        for p in self.parties:
            for q in self.parties:
                if p is not q:
                    p.hear(q.hab.replay(gvrsn=self.v), self.major)
                    same(p.hby.kevers[q.pre].serder.said, q.hab.kever.serder.said, "member's own state at another member")
        if self.delpre:
            boss = self.boss.hby.habByPre(self.delpre).replay(gvrsn=self.v)
            for p in self.parties:
                p.hear(boss, self.major)
            self.out.feed(boss, self.major)

    def threshold(self, n):
        if n >= 2 and self.rng.random() < 0.3:
            self.ctx.saw("weighted")
            return self.rng.choice([["1/2"] * n, [f"1/{n}"] * n, ["1/2"] + ["1/4"] * (n - 1) if n > 2 else ["1", "1/2"]])
        return f"{self.rng.randint(1, n):x}"

    def members(self, pres):
        return [p for p in self.parties if p.pre in pres]

    # ---------------------------------------------------------- judgement
    def enough(self, serder, got):
        """Do these contributions carry the event?"""
        ked = serder.ked
        if ked["t"] in ("icp", "dip"):
            return kl.sat(ked["kt"], got)
        if ked["t"] == "ixn":
            return kl.sat(self.est.ked["kt"], got)
        return kl.sat(ked["kt"], got) and kl.sat(self.est.ked["nt"], {o for o in got.values() if o is not None})

    def accepted(self, who, serder):
        kevers = who.kvy.kevers if who is self.out else who.hby.kevers
        return self.gpre in kevers and kevers[self.gpre].sn == int(serder.ked["s"], 16) and kevers[self.gpre].serder.said == serder.said

    def got(self, who, serder):
        return (self.outgot if who is self.out else who.got).setdefault(serder.said, {})

    def check(self, who, serder, note=""):
        got = self.got(who, serder)
        ok = self.enough(serder, got)
        if ok and self.extra(serder) and (who is self.out or not who.ghab):
            # others than members also need witnesses and the delegator, whose part comes later
            ok = self.accepted(who, serder)
        must(self.accepted(who, serder) == ok, "%s event %s at %s after contributions %s, thresholds %s%s%s", serder.ked["t"], "not in force" if ok else "in force",
             "outside validator" if who is self.out else f"{who.name}{"" if who.ghab else " (not a member)"}", sorted(got.items()), (serder.ked.get("kt"), self.est.ked["kt"], self.est.ked["nt"]), note, " (with witnesses or delegator)" if self.extra(serder) else "")
        self.ctx.saw("accepted" if ok else "partial")
        return ok

    def extra(self, serder):
        return bool(self.wits) or bool(self.delpre and serder.ked["t"] in ("dip", "drt"))

    # ------------------------------------------------------ contributions
    def own(self, p, serder):
        """p's own indexed signature of the event as stored with it."""
        idx = self.index(p, serder)
        for s in p.site.db.sigs.get(keys=(self.gpre, serder.said)):
            if s.index == idx:
                return s
        must(False, "member's own signature is not kept with the event")

    def index(self, p, serder):
        """Position of p's key among the event's keys."""
        keys = (serder if serder.ked["t"] != "ixn" else self.est).ked["k"]
        mine = [k for n in range(p.hab.kever.sn + 1) for k in p.hab.getOwnEvent(sn=n)[0].ked.get("k", [])]
        found = [keys.index(k) for k in mine if k in keys]
        return found[-1] if found else None

    def note(self, who, serder, siger):
        from keri.core import coring
        got = self.got(who, serder)
        if serder.ked["t"] in ("rot", "drt"):
            # what the signature exposes must be the key's place in the former commitment
            n = self.est.ked["n"]
            dig = coring.Diger(ser=serder.ked["k"][siger.index].encode(), code="E").qb64
            at = n.index(dig) if dig in n else None
            same(siger.ondex, at, "prior position told by the contribution of member %s", siger.index)
            got[siger.index] = at
        else:
            got[siger.index] = None

    def deliver(self, who, msg, serder, sigers):
        if who is self.out:
            self.out.feed(msg, self.major)
            self.out.settle()
            for s in sigers:
                self.note(who, serder, s)
        else:
            who.hear(msg, self.major)
            mine = self.index(who, serder) if who.ghab else None
            for s in sigers:
                if s.index != mine:
                    self.note(who, serder, s)
        self.check(who, serder)

    def message(self, serder, sigers):
        return kl.message(self.rng, bytes(serder.raw), major=self.major, sigs=[s.qb64 for s in sigers], gm=self.major)[0]

    def spread(self, serder, contributors, contribute, first, raw):
        """Contributions made one by one and delivered in random order until everybody has the event."""
        ctx, rng = self.ctx, self.rng
        from keri.core import indexing
        todo = [p for p in contributors if p is not first]
        rng.shuffle(todo)
        made = []                  # (member, siger)
        msgs = []
        targets = [self.out] + self.parties
        ready = {id(t) for t in targets if t is self.out or t.ghab or serder.ked["t"] in ("icp", "dip")}

        def put(p, raw):
            ready.add(id(p))
            s = self.own(p, serder)
            # an inception is told with all signatures gathered so far, others with the member's own
            told = list(p.site.db.sigs.get(keys=(self.gpre, serder.said))) if serder.ked["t"] in ("icp", "dip") else [s]
            made.append((p, s))
            self.note(p, serder, s)
            ctx.log("contribute", p.name, s.index, s.ondex)
            p.settle()
            self.check(p, serder, " of its own")
            p.propose(serder)
            if not self.accepted(p, serder):
                must(not p.complete(serder, None if rng.random() < 0.3 else p.counsel(0)), "member's proposal is told complete although it is not in force")
                ctx.saw("counselor_waiting")
            msgs.append((raw, told) if rng.random() < 0.5 else (self.message(serder, [s]), [s]))
        put(first, raw)
        self.short += not self.accepted(first, serder)
        while True:
            w = rng.random()
            if todo and rng.random() < 0.25 and todo[-1].ghab and id(todo[-1]) in ready:
                # a member's key misused: its signature reaches the member from outside
                p = todo[-1]
                if not self.accepted(p, serder):
                    s, = p.ghab.sign(ser=serder.raw, verfers=serder.verfers or None, rotated=serder.ked["t"] in ("rot", "drt"))
                    p.hear(self.message(serder, [s]), self.major)
                    self.check(p, serder, " after its own signature came from outside")
                    ctx.saw("misused")
            if todo and w < 0.35:
                p = todo.pop()
                if p.hby.kevers.get(self.gpre) is not None and p.ghab and self.accepted(p, serder):
                    continue
                put(p, contribute(p))
                continue
            t = rng.choice(targets)
            if id(t) not in ready:
                continue
            if w < 0.5:
                # altered: somebody's signature in another's place
                p, s = rng.choice(made)
                n = len((serder if serder.ked["t"] != "ixn" else self.est).ked["k"])
                j = rng.randrange(n)
                if j == s.index:
                    j = n
                bad = indexing.Siger(raw=s.raw, index=j, code="A")
                msg = self.message(serder, [bad])
                if t is self.out:
                    self.out.feed(msg, self.major)
                    self.out.settle()
                else:
                    t.hear(msg, self.major)
                self.check(t, serder, " after a signature in another's place")
                ctx.saw("altered_refused")
            elif w < 0.6 and len(made) > 1:
                some = rng.sample(made, rng.randint(2, len(made)))
                sigers = [s for _, s in some]
                if rng.random() < 0.4:
                    sigers += [rng.choice(sigers)] * rng.randint(1, 2)
                self.deliver(t, self.message(serder, sigers), serder, sigers)
                ctx.saw("gathered")
            elif w < 0.7:
                p, s = rng.choice(made)
                if t is not self.out and t.ghab and self.index(t, serder) == s.index:
                    continue
                ss = [s] * rng.randint(2, 4)
                self.deliver(t, self.message(serder, ss), serder, ss)
                ctx.saw("repeated")
            elif w < 0.73:
                p = rng.choice(self.parties)
                p.restart()
                ctx.saw("restarts")
                if id(p) in ready and self.gpre:
                    self.check(p, serder, " after a restart")
            else:
                raw, sigers = rng.choice(msgs)
                self.deliver(t, raw, serder, sigers)
            if not todo and not self.extra(serder) and all(self.accepted(x, serder) for x in targets if id(x) in ready):
                break
            if not todo and not self.enough(serder, {s.index: s.ondex for _, s in made}):
                return False
            if not todo and self.extra(serder) and all(self.accepted(x, serder) or ((x is self.out or not x.ghab) and self.enough(serder, self.got(x, serder))) for x in targets if id(x) in ready):
                self.rest(serder, made)
                break
        for t in self.parties:
            t.settle()
        for t in targets:
            if id(t) not in ready:
                t.hear(self.message(serder, [s for _, s in made]), self.major)
                for _, s in made:
                    self.note(t, serder, s)
        return True

    def rest(self, serder, made):
        """Witnesses and delegator do their part for the outside validator."""
        ctx = self.ctx
        p = made[0][0]
        if self.wits:
            w0 = self.other.hby
            log = b"".join(bytes(p.ghab.msgOwnEvent(sn=n, framed=True, gvrsn=self.v)) for n in range(p.ghab.kever.sn + 1))
            if self.delpre:
                log = bytes(self.boss.hby.habByPre(self.delpre).replay(gvrsn=self.v)) + log
            must(self.out.head(self.gpre) != serder.said, "group event in force at an outside validator without its witnesses")
        if self.delpre and serder.ked["t"] in ("dip", "drt"):
            must(self.out.head(self.gpre) != serder.said, "group event in force at an outside validator without its delegator")
            boss = self.boss.hby.habByPre(self.delpre)
            boss.interact(data=[dict(i=self.gpre, s=serder.ked["s"], d=serder.said)], **self.vkw)
            sealed = boss.msgOwnEvent(sn=boss.kever.sn, framed=True, gvrsn=self.v)
            self.out.feed(sealed, self.major)
            for q in self.parties:
                q.hear(sealed, self.major)
            self.out.settle()
        if self.wits:
            w0.psr.parse(ims=bytearray(log))
            for _ in range(8):
                w0.kvy.processEscrows()
            must(self.gpre in w0.kevers and w0.kevers[self.gpre].serder.said == serder.said, "witness does not accept the group's event")
            for n, w in enumerate(self.wits):
                must(self.out.head(self.gpre) != serder.said, "group event in force at an outside validator with %s of %s witnesses", n, len(self.wits))
                rct = w0.habByPre(w).witness(serder, framed=True, gvrsn=self.v, version=self.v)
                self.out.feed(rct, self.major)
                self.out.settle()
                for q in self.parties:
                    q.hby.psr.parse(ims=bytearray(rct))
            ctx.saw("witnessed")
        self.out.settle()
        must(self.out.head(self.gpre) == serder.said, "complete group event is not in force at an outside validator")

    # ------------------------------------------------------------- actions
    def incept(self):
        ctx, rng = self.ctx, self.rng
        sm = rng.sample(self.parties, rng.randint(2, len(self.parties)))
        rm = list(sm) if rng.random() < 0.6 else rng.sample(self.parties, rng.randint(1, len(self.parties)))
        self.smids, self.rmids = [p.pre for p in sm], [p.pre for p in rm]
        self.est = None
        kw = dict(isith=self.threshold(len(sm)), nsith=self.threshold(len(rm)), toad=len(self.wits), wits=self.wits, delpre=self.delpre, **self.vkw)

        def contribute(p):
            p.ghab = p.hby.makeGroupHab("grp", mhab=p.hab, smids=self.smids, rmids=self.rmids, **kw)
            if self.gpre is None:
                self.gpre = p.ghab.pre
            same(p.ghab.pre, self.gpre, "group identifier made by member %s", p.name)
            return p.ghab.msgOwnEvent(sn=0, allowPartiallySigned=True, framed=True, gvrsn=self.v)
        first = rng.choice(sm)
        raw = contribute(first)
        serder = first.ghab.getOwnEvent(sn=0, allowPartiallySigned=True)[0]
        same(serder.ked["k"], [p.hab.kever.verfers[0].qb64 for p in sm], "keys of the group's inception")
        same(serder.ked["n"], [p.hab.kever.ndigers[0].qb64 for p in rm], "next keys of the group's inception")
        self.est = serder
        ok = self.spread(serder, sm, contribute, first, raw)
        must(ok, "all members signed but the group's inception is not in force")
        for p in self.parties:
            if not p.ghab and p.pre in self.smids + self.rmids:
                if p not in rm and rng.random() < 0.3:
                    continue
                p.ghab = p.hby.joinGroupHab(self.gpre, "grp", mhab=p.hab, smids=self.smids, rmids=self.rmids)
                ctx.saw("joined")
                ctx.saw("next_only", p not in sm)
        self.done(serder)

    def done(self, serder):
        ctx = self.ctx
        if serder.ked["t"] != "ixn":
            self.est = serder
        self.events.append(serder)
        ctx.saw("events")
        want = None
        for p in [self.out] + self.parties:
            kevers = p.kvy.kevers if p is self.out else p.hby.kevers
            must(self.gpre in kevers, "no state of the group at %s", p is self.out and "outside validator" or p.name)
            k = kevers[self.gpre]
            now = (k.sn, k.serder.said, [v.qb64 for v in k.verfers], str(k.tholder.sith), [d.qb64 for d in k.ndigers], str(k.ntholder.sith), list(k.wits), k.toader.num, k.delpre or None)
            want = want or now
            same(now, want, "group state at %s against the outside validator", getattr(p, "name", "outside"))
            ctx.saw("outside_states" if p is self.out else "member_states")
        same(want[1], serder.said, "group event in force")
        self.counsels()
        for p in self.parties:
            if p.ghab:
                must(p.hby.habByPre(self.gpre) is p.ghab and p.hby.habByName("grp") is p.ghab, "group identifier not found by its member")
                same(p.ghab.mhab.pre, p.pre, "own member of the group")
                if self.index(p, self.est) is not None:
                    sig, = p.ghab.sign(b"any text")
                    same(sig.index, self.index(p, self.est), "position of a member's signature")
                    from keri.core import coring
                    must(coring.Verfer(qb64=self.est.ked["k"][sig.index]).verify(sig.raw, b"any text"), "a member's signature does not verify")

    def counsels(self, last=False):
        """What members' coordinators tell about their proposals."""
        ctx = self.ctx
        for p in self.parties:
            if not p.ghab or (not last and not self.delpre and self.rng.random() < 0.5):
                continue
            p.settle()
            c = p.counsel(8)
            for e in p.props:
                there = e.said in p.site.db.kels.get(keys=self.gpre, on=e.sn)
                told = p.complete(e, c)
                if not there:
                    must(not told, "member's proposal is told complete although another event is in force")
                    ctx.saw("counselor_not_done")
                elif not self.wits and not self.delpre or p.hab.kever.verfers[0].qb64 != self.est.ked["k"][0]:
                    must(told, "%s event in force is not told complete to the member who proposed it", e.ked["t"])
                    ctx.saw("counselor_done")
            p.props = []

    def signers(self):
        return [p for p in self.parties if p.ghab and self.index(p, self.est) is not None]

    def interact(self):
        ctx, rng = self.ctx, self.rng
        data = [dict(i=self.gpre, s=f"{rng.randrange(9):x}", d=self.est.said)] if rng.random() < 0.7 else []
        can = self.signers()
        if not kl.sat(self.est.ked["kt"], {self.index(p, self.est) for p in can}):
            return
        first = rng.choice(can)
        sn = first.ghab.kever.sn + 1
        raw = first.ghab.interact(data=data, framed=True, gvrsn=self.v, **self.vkw)
        serder = first.ghab.getOwnEvent(sn=sn, allowPartiallySigned=True)[0]

        def contribute(p):
            msg = p.ghab.interact(data=data, framed=True, gvrsn=self.v, **self.vkw)
            return msg
        must(self.spread(serder, can, contribute, first, raw), "all members signed but the group's interaction is not in force")
        ctx.saw("interactions")
        self.done(serder)

    def alone(self):
        """A member rotates its own identifier; the group keeps its keys."""
        # a key is kept for one rotation only
        ps = [p for p in self.parties if p.pre not in self.smids or p.hab.kever.verfers[0].qb64 in self.est.ked["k"]]
        if ps:
            self.rng.choice(ps).hab.rotate(**self.vkw)
            self.introduce()
            self.ctx.saw("rotated_alone")

    def compete(self):
        """Members too few for it propose one event, then enough members another one."""
        ctx, rng = self.ctx, self.rng
        if self.extra(self.est) and self.wits:
            return
        can = self.signers()
        kt = self.est.ked["kt"]
        few = rng.sample(can, rng.randint(1, len(can)))
        while few and kl.sat(kt, {self.index(p, self.est) for p in few}):
            few.pop()
        if not few or not kl.sat(kt, {self.index(p, self.est) for p in can}):
            return
        todo = [(p, 0) for p in few] + [(p, 1) for p in can]
        rng.shuffle(todo)
        data = [[dict(i=self.gpre, s="0", d=self.est.said)], [dict(i=self.gpre, s="1", d=self.est.said)]]
        sn = can[0].ghab.kever.sn + 1
        serders, sigs = [None, None], [[], []]
        targets = [self.out] + self.parties
        from keri.core import eventing
        for n in (0, 1):
            serders[n] = eventing.interact(pre=self.gpre, dig=can[0].ghab.kever.serder.said, sn=sn, data=data[n], kind=self.kind, version=self.v)
        while todo:
            p, n = todo.pop()
            if self.accepted(p, serders[1]):
                continue
            p.ghab.interact(data=data[n], framed=True, gvrsn=self.v, **self.vkw)
            s = self.own(p, serders[n])
            sigs[n].append(s)
            self.note(p, serders[n], s)
            p.settle()
            p.propose(serders[n])
            self.check(p, serders[n], " of its own")
            for _ in range(rng.randint(0, 4)):
                t, m = rng.choice(targets), rng.randrange(2)
                if sigs[m] and not self.accepted(t, serders[1 - m]):
                    self.deliver(t, self.message(serders[m], [s := rng.choice(sigs[m])]), serders[m], [s])
        for t in targets:
            for s in sigs[1]:
                self.deliver(t, self.message(serders[1], [s]), serders[1], [s])
        ctx.saw("competing")
        self.done(serders[1])

    def rotate(self):
        ctx, rng = self.ctx, self.rng
        from keri.core import coring
        # who of those committed exposes its next key
        holders = {p: self.est.ked["n"].index(p.hab.kever.ndigers[0].qb64) for p in self.parties if p.ghab and p.hab.kever.ndigers[0].qb64 in self.est.ked["n"]}
        if not kl.sat(self.est.ked["nt"], holders.values()):
            return False
        exposing = list(holders)
        rng.shuffle(exposing)
        while exposing and rng.random() < 0.5 and kl.sat(self.est.ked["nt"], {holders[p] for p in exposing[:-1]}):
            exposing.pop()
        extra = [p for p in self.parties if p not in exposing and rng.random() < 0.4]
        for p in exposing:
            p.hab.rotate(**self.vkw)
        for p in extra:
            if p in holders or rng.random() < 0.5:
                continue
            p.hab.rotate(**self.vkw)
        self.introduce()
        sm = exposing + [p for p in extra if p not in holders]
        rng.shuffle(sm)
        rm = list(sm) if rng.random() < 0.6 else rng.sample(self.parties, rng.randint(1, len(self.parties)))
        smids, rmids = [p.pre for p in sm], [p.pre for p in rm]
        ctx.saw("members_changed", (smids, rmids) != (self.smids, self.rmids))
        # everybody in sm signing must be enough
        kw = dict(isith=self.threshold(len(sm)), nsith=self.threshold(len(rm)))
        for p in sm:
            if not p.ghab:
                p.ghab = p.hby.joinGroupHab(self.gpre, "grp", mhab=p.hab, smids=smids, rmids=rmids)
                ctx.saw("joined")
        first = rng.choice(sm)
        merfers, migers = first.hby.extractMerfersMigers(smids, rmids)
        sn = first.ghab.kever.sn + 1
        told = []
        args = dict(kw, verfers=merfers, digers=migers, toad=len(self.wits), cuts=[], adds=[], framed=True, gvrsn=self.v, **self.vkw)
        raw = first.ghab.rotate(**args, smids=smids, rmids=rmids)
        serder = first.ghab.getOwnEvent(sn=sn, allowPartiallySigned=True)[0]
        same((serder.ked["k"], serder.ked["n"]), ([p.hab.kever.verfers[0].qb64 for p in sm], [p.hab.kever.ndigers[0].qb64 for p in rm]), "keys of the group's rotation")

        def contribute(p):
            if rng.random() < 0.5:
                ctx.saw("rotated_by_event")
                told.append(p)
                return p.ghab.rotate(serder=serder, smids=smids, rmids=rmids, framed=True, gvrsn=self.v)
            ctx.saw("rotated_by_arguments")
            return p.ghab.rotate(**args, smids=smids, rmids=rmids)
        must(self.spread(serder, sm, contribute, first, raw), "all members signed but the group's rotation is not in force")
        self.smids, self.rmids = smids, rmids
        for p in self.parties:
            if not p.ghab and p in rm:
                p.ghab = p.hby.joinGroupHab(self.gpre, "grp", mhab=p.hab, smids=smids, rmids=rmids)
                ctx.saw("joined")
                ctx.saw("next_only", p not in sm)
        ctx.saw("rotations")
        self.done(serder)
        for p in sm:
            if p in told:
                same((list(p.ghab.smids), list(p.ghab.rmids)), (smids, rmids), "members recorded by %s after a rotation", p.name)
                same((list(p.site.db.habs.get(keys=(self.gpre,)).smids), list(p.site.db.habs.get(keys=(self.gpre,)).rmids)), (smids, rmids), "members stored by %s after a rotation", p.name)
        return True

    def swapped(self, p, sm, desks, serder, ekw):
        """A message names a proposal its receiver approved but carries another event, signed with the receiver's misused key."""
        from keri.app import grouping
        from keri.core import eventing
        from keri.core.serdering import SerderKERI
        q = self.rng.choice([x for x in sm if x is not p])
        other = eventing.interact(pre=self.gpre, dig=serder.said, sn=serder.sn + 1, data=[dict(i=p.pre, s="0", d=serder.said)], version=self.v, kind=self.kind)
        keys = (self.est if serder.ked["t"] == "ixn" else serder).ked["k"]
        i = keys.index(next(k for n in range(p.hab.kever.sn, -1, -1) for k in p.hab.getOwnEvent(sn=n)[0].ked.get("k", []) if k in keys))
        sig, = p.hab.sign(other.raw, verfers=[v for v in p.ghab.kever.verfers if v.qb64 == keys[i]], indices=[i])
        ims = self.message(other, [sig])
        exn, atc = grouping.multisigInteractExn(q.ghab, self.smids, ixn=bytearray(ims), **ekw)
        esaids = {keys[0] for keys, _ in p.site.db.maids.getTopItemIter()}
        sad = dict(exn.sad)
        sad["e"] = dict(sad["e"], d=self.rng.choice(sorted(esaids)))
        forged = SerderKERI(sad=sad, makify=True)
        msg = q.hab.endorse(serder=forged, last=False, framed=True, gvrsn=self.v)
        k = len(bytes(q.hab.endorse(serder=exn, last=False, framed=True, gvrsn=self.v))) - exn.size
        desks[p].hear(bytes(msg) + bytes(atc[k:]), 1)
        got = p.site.db.sigs.get(keys=(self.gpre, other.said))
        must(not any(s.index == i for s in got) and p.hby.kevers[self.gpre].serder.said != other.said, "a message telling of an approved proposal brought a member's own signature of another event")
        self.ctx.saw("swapped_refused")

    def finish(self):
        self.counsels(True)
        fresh = kl.Validator(name="fresh")
        try:
            who = self.rng.choice([p for p in self.parties if p.ghab])
            if self.delpre:
                fresh.feed(self.boss.hby.habByPre(self.delpre).replay(gvrsn=self.v), self.major)
            fresh.feed(who.ghab.replay(gvrsn=self.v), self.major)
            fresh.settle()
            same(fresh.head(self.gpre), self.events[-1].said, "group state from a member's replayed log")
            kl.audit(self.ctx, self.out.db)
        finally:
            fresh.close()


def history(ctx, rng, i):
    with tempfile.TemporaryDirectory(prefix="vh03") as top:
        w = World(ctx, rng, top)
        try:
            w.incept()
            for _ in range(rng.randint(2, 5) if not ctx.thorough else rng.randint(3, 9)):
                x = rng.random()
                if x < 0.4:
                    w.interact()
                elif x < 0.8:
                    w.rotate()
                elif x < 0.88:
                    w.compete()
                else:
                    w.alone()
            w.finish()
            ctx.case((w.gpre, len(w.events)), w.short >= 2)
            ctx.sample(dict(members=len(w.parties), events=len(w.events)))
        finally:
            w.close()


class Desk:
    """A member's message coordinator as an agent runs it."""

    def __init__(self, p):
        from keri.app import grouping, notifying
        from keri.peer import exchanging
        self.p = p
        self.notifier = notifying.Notifier(hby=p.hby, noter=notifying.Noter(name=p.name, temp=True))
        self.mux = grouping.Multiplexor(hby=p.hby, notifier=self.notifier)
        self.exc = exchanging.Exchanger(hby=p.hby, handlers=[])
        grouping.loadHandlers(exc=self.exc, mux=self.mux)

    def hear(self, msg, major):
        from keri import kering
        from keri.core import parsing
        parsing.Parser(version=kering.Vrsn_1_0 if major == 1 else kering.Vrsn_2_0).parse(ims=bytearray(msg), exc=self.exc, kvy=None, framed=True)
        self.p.settle()

    def approve(self, msg, major):
        """As the command line does with its own proposal."""
        from keri import kering
        from keri.core import parsing
        m, = parsing.Parser(version=kering.Vrsn_1_0 if major == 1 else kering.Vrsn_2_0).parse(ims=bytearray(msg), framed=True, processive=False)
        self.mux.exc.logEvent(serder=m.serder, pathed=m.ptds, tsgs=m.tsgs, cigars=m.cigars, essrs=m.essrs, nests=m.nests)
        self.mux.add(m.serder, nests=m.nests)
        self.p.settle()

    def close(self):
        self.notifier.noter.close(clear=True)


def mux(ctx, rng, i):
    """Members exchange proposals as messages; one counts at a member once it approved the same event itself."""
    from keri import kering
    from keri.app import grouping
    from keri.core.serdering import SerderKERI
    with tempfile.TemporaryDirectory(prefix="vh03") as top:
        w = World(ctx, rng, top, n=rng.randint(2, 3), wits=False)
        desks = {}
        try:
            desks = {p: Desk(p) for p in w.parties}
            sm = list(w.parties)
            rng.shuffle(sm)
            w.smids = w.rmids = [p.pre for p in sm]
            for turn in range(rng.randint(1, 4)):
                op = "icp" if not turn else rng.choice(["rot", "ixn", "ixn"])
                kw = dict(isith=w.threshold(len(sm)), nsith=w.threshold(len(sm)))
                if op == "rot":
                    if not all(p.hab.kever.ndigers[0].qb64 in w.est.ked["n"] for p in sm):
                        op = "ixn"
                    else:
                        for p in sm:
                            p.hab.rotate(**w.vkw)
                        w.introduce()
                data = [dict(i=w.gpre or sm[0].pre, s=f"{turn:x}", d=sm[0].hab.kever.serder.said)]
                emajor = rng.choice([1, 2]) if w.major == 1 else 2
                evrsn = kering.Vrsn_1_0 if emajor == 1 else kering.Vrsn_2_0
                ekw = dict(version=evrsn, kind=rng.choice(["JSON", "CBOR", "MGPK"]), gvrsn=w.v)

                def propose(p):
                    """p's contribution and the message telling of it."""
                    if op == "icp":
                        p.ghab = p.hby.makeGroupHab("grp", mhab=p.hab, smids=w.smids, rmids=w.rmids, **kw, **w.vkw)
                        w.gpre = p.ghab.pre
                        raw = p.ghab.msgOwnEvent(sn=0, allowPartiallySigned=True, framed=True, gvrsn=w.v)
                        exn, atc = grouping.multisigInceptExn(p.hab, w.smids, w.rmids, icp=bytearray(raw), **ekw)
                    elif op == "rot":
                        merfers, migers = p.hby.extractMerfersMigers(w.smids, w.rmids)
                        raw = p.ghab.rotate(verfers=merfers, digers=migers, toad=0, cuts=[], adds=[], framed=True, gvrsn=w.v, **kw, **w.vkw)
                        exn, atc = grouping.multisigRotateExn(p.ghab, w.smids, w.rmids, rot=bytearray(raw), **ekw)
                    else:
                        raw = p.ghab.interact(data=data, framed=True, gvrsn=w.v, **w.vkw)
                        exn, atc = grouping.multisigInteractExn(p.ghab, w.smids, ixn=bytearray(raw), **ekw)
                    return bytes(raw), bytes(exn.raw) + bytes(atc)
                todo = list(sm)
                rng.shuffle(todo)
                first = todo[-1]
                told = {}              # member -> (message, signatures told)
                heard = {p: set() for p in sm}
                serder = None
                while True:
                    if todo and (not told or rng.random() < 0.4):
                        p = todo.pop()
                        if serder is not None and p.ghab and w.accepted(p, serder):
                            must(False, "group event in force at a member which did not approve it, from messages")
                        raw, msg = propose(p)
                        if serder is None:
                            serder = SerderKERI(raw=raw)
                            if op == "icp":
                                w.est = serder
                        s = w.own(p, serder)
                        sigs = list(p.site.db.sigs.get(keys=(w.gpre, serder.said))) if op == "icp" else [s]
                        told[p] = (msg, sigs)
                        w.note(p, serder, s)
                        desks[p].approve(msg, emajor)
                        for q in heard[p]:
                            for s in told[q][1]:
                                w.note(p, serder, s)
                        ctx.log("approve", op, p.name, sorted(q.name for q in heard[p]))
                        ctx.saw("mux_approved")
                        ctx.saw("mux_replayed", bool(heard[p]))
                        w.check(p, serder, " when it approved")
                        continue
                    p, q = rng.choice(sm), rng.choice(sorted(told, key=lambda x: x.name))
                    if p is q:
                        continue
                    if not w.got(p, serder):
                        ctx.saw("mux_waiting")
                    desks[p].hear(told[q][0], emajor)
                    heard[p].add(q)
                    ctx.log("hear", op, p.name, q.name)
                    if p not in todo:
                        for s in told[q][1]:
                            w.note(p, serder, s)
                        w.check(p, serder, " from messages")
                    else:
                        must(not w.accepted(p, serder), "group event in force at a member which did not approve it, from messages")
                    if not todo and all(w.accepted(x, serder) for x in sm):
                        break
                if emajor == 1 and w.major == 1:
                    w.swapped(rng.choice(sm), sm, desks, serder, ekw)
                for p in sm:
                    w.out.feed(w.message(serder, list(p.site.db.sigs.get(keys=(w.gpre, serder.said)))), w.major)
                w.out.settle()
                w.done(serder)
            kl.audit(ctx, w.out.db)
            ctx.case((w.gpre, len(w.events)), len(w.events) >= 2)
        finally:
            for d in desks.values():
                d.close()
            w.close()


CASES = [("mux", mux, 60, 800), ("history", history, 120, 1500)]
