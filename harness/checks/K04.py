"""K04: first seen wins, observed at a real validator offered conflicting, recovering and repeated events."""
import vboot
import kellib as kl
import msggen as mg
from vh import must, same

RULE = ("each case drives one or more identifiers (plain, delegated, twice delegated) and offers, fully signed, witnessed and approved: next events, conflicting events at every "
        "accepted number, recovery rotations, superseding delegated rotations, repeats and superseded events again; acceptance is compared with the superseding rules computed "
        "independently and the first-seen log must only grow; non-trivial if a conflict was offered")
REQUIRE = ["refused_conflicts", "duplicity_kept", "recoveries", "repeats", "superseded_again", "delegated_superseding", "delegated_refused", "audited_events"]
ASSUME = ["an event is sealed by at most one event of its delegator"]


class World:
    def __init__(self, ctx, rng, depth):
        self.ctx, self.rng = ctx, rng
        self.v = kl.Validator(lax=rng.random() < 0.3)
        self.ctls = []
        for k in range(depth + 1):
            c = kl.Ctl(rng, nkeys=rng.choice([1, 1, 2]), wits=[kl.Key(rng, False) for _ in range(rng.choice([0, 0, 0, 2]))], delegator=self.ctls[-1] if k else None,
                       traits=[])
            self.ctls.append(c)
        self.fels, self.kels = {}, {}
        self.seal = {}     # said -> approving event, index
        self.gone = []     # superseded events
        for c in self.ctls:
            self.approve(c, c.branch[0])
            self.put(c, c.branch[0])
            self.check(c, c.branch[0], "inception")

    def watch(self):
        """Logs only grow."""
        fels, kels = {}, {}
        for keys, on, dig in self.v.db.fels.getAllItemIter():
            fels.setdefault(tuple(keys), []).append(dig)
        for keys, on, dig in self.v.db.kels.getAllItemIter():
            kels.setdefault((tuple(keys), on), []).append(dig)
        for old, new, what in ((self.fels, fels, "first seen log"), (self.kels, kels, "event log")):
            for k, l in old.items():
                same(new.get(k, [])[:len(l)], l, "earlier entries of %s", what)
        self.fels, self.kels = fels, kels

    def put(self, c, ev, source=True, sigs=None):
        src = self.seal.get(ev.said)
        data, gm = kl.message(self.rng, ev.raw, ev.major, sigs=sigs or ev.signatures(self.rng), wigs=ev.receipts(),
                              source=(src[0].sn, src[0].said) if src and source else None)
        self.ctx.log("put", ev.pre[:5], ev.ilk, ev.sn, ev.said[:5], src and src[0].said[:5], source)
        self.v.feed(data, gm)
        self.v.settle()
        self.watch()

    def check(self, c, ev, why):
        same((self.v.sn(c.pre), self.v.head(c.pre)), (ev.sn, ev.said), "event in force after %s", why)

    def evidence(self, ev):
        """A fully signed conflicting event is kept as likely duplicitous."""
        if ev.ilk in ("ixn", "icp", "dip") and not any(e.said == ev.said for e in ev.ctl.events):
            kept = {(k[0], d) for k, on, d in self.v.db.ldes.getAllItemIter() if on == ev.sn}
            must((ev.pre, ev.said) in kept, "conflicting %s is not kept as likely duplicitous", ev.ilk)
            self.ctx.saw("duplicity_kept")

    def approve(self, c, evs):
        """Seal the events in one event of the delegator (itself approved)."""
        d = c.delegator
        if d is None:
            return
        evs = evs if isinstance(evs, list) else [evs]
        rng = self.rng
        est = rng.random() < 0.4
        e = d.approve(evs, est=est)
        if e.est:
            self.approve(d, e)
        for k, x in enumerate(evs):
            self.seal[x.said] = (e, k)
        self.put(d, e)
        self.check(d, e, "approving")

    def legal(self, new, old):
        """Does the delegated rotation new supersede the delegated rotation old?"""
        while True:
            (bn, kn), (bo, ko) = self.seal[new.said], self.seal[old.said]
            if bn.said == bo.said:
                return kn > ko
            if bn.sn > bo.sn or (bn.sn == bo.sn and bn.ilk in ("rot", "drt") and bo.ilk == "ixn"):
                return True
            if bn.said not in self.seal or bo.said not in self.seal:
                return False
            new, old = bn, bo


def history(ctx, rng, i):
    w = World(ctx, rng, rng.choice([0, 0, 1, 1, 2]))
    v = w.v
    n = 0
    for step in range(rng.randint(4, 12)):
        c = rng.choice(w.ctls + [w.ctls[-1]])
        head = c.last
        est = c.lastest
        opts = ["next", "next", "ixn", "ixn", "repeat", "conflict", "recover", "badrecover", "again", "staleroot", "icp"]
        if c.delegator:
            opts += ["supersede"] * 3 + ["unordered"]
        act = rng.choice(opts)
        if act in ("next", "ixn"):
            ev = (c.rot if act == "next" and rng.random() < 0.5 else c.ixn)(push=False)
            if ev.est:
                w.approve(c, ev)
            if c.last is not head:
                continue
            c.push(ev)
            w.put(c, ev)
            w.check(c, ev, "next event")
        elif act == "repeat":
            ev = rng.choice(c.branch)
            fel = v.db.fels.cntAll()
            w.put(c, ev, sigs=ev.signatures(rng, rng.sample(range(len(ev.keys)), rng.randint(1, len(ev.keys)))))
            same(v.db.fels.cntAll(), fel, "first seen entries after repeat of %s", ev.ilk)
            w.check(c, head, "repeat")
            ctx.saw("repeats")
        elif act == "conflict" and c.branch[1:]:
            at = rng.randint(1, head.sn)
            ev = c.ixn(at=at, push=False) if rng.random() < 0.6 else None
            if ev is None:
                if at > est.sn or c.delegator and at >= est.sn:
                    continue
                ev = c.rot(at=at, push=False)
                w.approve(c, ev)
                if c.last is not head:
                    continue
            w.put(c, ev)
            w.check(c, head, f"conflicting {ev.ilk} at {at}")
            w.evidence(ev)
            ctx.saw("refused_conflicts")
            n += 1
        elif act == "icp":
            e = c.branch[0]
            if e.sad["i"] != e.sad["d"]:       # same identifier, other inception
                sad = dict(e.sad, a=[dict(i=mg.prefix(rng), s="0", d=mg.digest(rng))])
                sad, raw = mg.finish(sad, c.kind, {"d": "E"})
                ev = kl.Ev(c, sad, raw, e.keys, e.kt, e.wits, e.toad, None, e.ndigs, e.nt)
                w.put(c, ev)
                w.check(c, head, "other inception")
                w.evidence(ev)
                ctx.saw("refused_conflicts")
        elif act in ("recover", "badrecover") and head.sn > est.sn:
            at = rng.randint(est.sn + 1, head.sn)
            if act == "badrecover":
                bad = [e.said for e in c.events if e.sn != at - 1 or e not in c.branch] + [mg.digest(rng)]
                ev = c.rot(at=at, push=False, p=rng.choice(bad))
            else:
                ev = c.rot(at=at, push=False)
            w.approve(c, ev)
            if c.last is not head:
                continue
            w.put(c, ev)
            if act == "recover":
                w.gone += [e for e in c.branch if e.sn >= at]
                c.push(ev)
                w.check(c, ev, f"recovery of {head.sn - at + 1} interactions")
                ctx.saw("recoveries")
                ctx.saw("recoveries_delegated" if c.delegator else "recoveries_plain")
            else:
                w.check(c, head, "recovery with wrong prior")
                ctx.saw("refused_conflicts")
            n += 1
        elif act == "again" and w.gone:
            ev = rng.choice(w.gone)
            h = ev.ctl.last
            w.put(ev.ctl, ev)
            w.check(ev.ctl, h, "superseded event again")
            ctx.saw("superseded_again")
        elif act in ("supersede", "unordered") and est.ilk == "drt" and c.lastest.next:
            d = c.delegator
            bo = w.seal[est.said][0]
            ev = c.rot(at=est.sn, push=False)
            how = rng.choice(["later", "earlier", "samerot"])
            if how == "earlier":
                # approved, but by an event before the one that approved the rotation in force: cannot be made now, so swap roles:
                # the rotation in force is replaced by a later approved one, then the first is offered again
                w.approve(c, ev)
                if c.last is not head:
                    continue
                w.put(c, ev)
                if not w.legal(ev, est):
                    w.check(c, head, "delegated rotation that may not supersede")
                    ctx.saw("delegated_refused")
                    continue
                w.check(c, ev, "superseding delegated rotation")
                w.gone += [e for e in c.branch if e.sn >= est.sn]
                c.push(ev)
                w.put(c, est)
                w.check(c, ev, "superseded delegated rotation again")
                ctx.saw("delegated_superseding")
                ctx.saw("delegated_refused")
            elif how == "samerot" and d.last is bo and bo.ilk == "ixn" and d.lastest.sn < bo.sn:
                # delegator recovers the interaction that approved by a rotation at the same number
                e = d.rot(a=[dict(i=ev.pre, s=f"{ev.sn:x}", d=ev.said)], at=bo.sn, push=False)
                dh = d.last
                if d.delegator:
                    w.approve(d, e)
                    if d.last is not dh or c.last is not head:
                        continue
                w.put(d, e)
                w.gone.append(bo)
                d.push(e)
                w.check(d, e, "recovery of approval")
                w.seal[ev.said] = (e, 0)
                w.put(c, ev, source=rng.random() < 0.5)
                w.check(c, ev, "superseding delegated rotation approved by recovery rotation")
                w.gone += [x for x in c.branch if x.sn >= est.sn]
                c.push(ev)
                ctx.saw("delegated_superseding")
                ctx.saw("superseding_by_recovery")
            else:
                w.approve(c, ev)
                if c.last is not head:
                    continue
                w.put(c, ev, source=rng.random() < 0.6)
                if not w.legal(ev, est):
                    w.check(c, head, "delegated rotation that may not supersede")
                    ctx.saw("delegated_refused")
                    continue
                w.check(c, ev, "superseding delegated rotation")
                w.gone += [e for e in c.branch if e.sn >= est.sn]
                c.push(ev)
                ctx.saw("delegated_superseding")
            n += 1
        elif act == "staleroot" and c.delegator and est.sn > 0 and c.branch[0].next:
            # two rival delegated rotations sealed by one event: only the one sealed later may replace the other
            a = c.rot(push=False)
            b = c.rot(push=False)
            order = [a, b]
            rng.shuffle(order)
            w.approve(c, order)
            if c.last is not head:
                continue
            w.put(c, a)
            w.check(c, a, "next delegated rotation")
            c.push(a)
            w.put(c, b)
            if order[1] is b:
                w.gone.append(a)
                c.push(b)
                w.check(c, b, "delegated rotation sealed later in the same event")
                ctx.saw("delegated_superseding")
            else:
                w.check(c, a, "delegated rotation sealed earlier in the same event")
                ctx.saw("delegated_refused")
            n += 1
    kl.audit(ctx, v.db)
    v.close()
    ctx.case(tuple(c.pre for c in w.ctls), n > 0)


CASES = [("history", history, 900, 20000)]
