"""K11: signed replies take effect only when newest and signed by keys in force, in whatever order they arrive."""
import datetime
import vboot
import kellib as kl
import msggen as mg
from vh import must, same

RULE = ("each case delivers endpoint role, location and watcher replies of several identifiers (transferable ones across rotations, and nontransferable ones) to real validators in "
        "several orders, with repeats, partial signature groups, replies ahead of the signer's keys, and false ones; after every step the record must be one that an independent rule "
        "(signer's establishment sequence number, then date) allows and must never go back, in the end it must be the newest in every order; non-trivial if some subject has several "
        "replies")
REQUIRE = ["replies", "false", "stale_refused", "newer_accepted", "escrowed", "orders", "cut", "nontransferable", "transferable", "resigned", "partial", "ahead", "old"]
ASSUME = ["replies about one subject by the same keys have different dates", "escrow timeouts (one hour from the date of the reply) do not pass, except for replies already accepted"]

ROLES = ["controller", "witness", "registrar", "watcher", "judge", "juror", "peer", "mailbox", "agent"]


class Party(kl.Validator):
    def __init__(self, name, lax=True):
        super().__init__(name=name, lax=lax)
        from keri.core.routing import Router, Revery
        self.rtr = Router()
        self.rvy = Revery(db=self.db, rtr=self.rtr, lax=lax)
        self.kvy.rvy = self.rvy
        self.kvy.registerReplyRoutes(self.rtr)

    def feed(self, data, gm=1, **kwa):
        super().feed(data, gm, rvy=self.rvy, **kwa)

    def settle(self, rounds=12):
        super().settle(rounds)
        self.rvy.processEscrowReply()


def stamp(base, k):
    return (base + datetime.timedelta(microseconds=1000 * k)).isoformat(timespec="microseconds")


class Reply:
    def __init__(self, rng, subject, value, route, a, dt, order, signer, est=None, key=None, major=None):
        self.subject, self.value, self.dt, self.order, self.signer, self.est, self.key = subject, value, dt, order, signer, est, key
        major = major or rng.choice([1, 1, 2])
        kind = rng.choice(["JSON", "CBOR", "MGPK"])
        sad = dict(v=mg.vstring("KERI", major, kind, 0), t="rpy", d="")
        if major == 2:
            sad["i"] = signer
        sad.update(dt=dt, r=route, a=a)
        self.sad, self.raw = mg.finish(sad, kind, {"d": "E"})
        self.said = self.sad["d"]
        self.major = major

    def sigs(self, rng, which=None, est=None):
        est = est or self.est
        return [kl.isig("A", j, None, est.keys[j].sign(self.raw)) for j in (range(len(est.keys)) if which is None else which)]

    def message(self, rng, which=None, est=None):
        if self.key:
            return kl.message(rng, self.raw, self.major, couples=[(self.key.qb64, kl.csig(self.key.sign(self.raw)))])
        e = est or self.est
        tsgs = [(e.pre, e.sn, e.said, self.sigs(rng, which, e))]
        if rng.random() < 0.2:     # beside a group that proves nothing
            extra = rng.choice([(e.pre, e.sn + rng.choice([0, 1, 2, 7]), mg.digest(rng)), (mg.digest(rng), 0, mg.digest(rng))])
            tsgs.insert(rng.randint(0, 1), extra + ([kl.isig("A", 0, None, kl.Key(rng).sign(self.raw))],))
        return kl.message(rng, self.raw, self.major, tsgs=tsgs)


def recorded(db):
    out = {}
    for keys, rec in db.ends.getTopItemIter():
        out[("end",) + tuple(keys)] = ("allowed", rec.allowed, db.eans.get(keys=keys).qb64)
    for keys, rec in db.locs.getTopItemIter():
        out[("loc",) + tuple(keys)] = ("url", rec.url, db.lans.get(keys=keys).qb64)
    for keys, rec in db.obvs.getTopItemIter():
        out[("obv",) + tuple(keys)] = ("enabled", rec.enabled, db.wwas.get(keys=keys).qb64)
    return out


def history(ctx, rng, i):
    old = rng.random() < 0.3      # dates further back than the escrow timeout
    base = datetime.datetime.now(datetime.timezone.utc) - datetime.timedelta(seconds=86400 if old else 360)
    rots = lambda c: c.rot(rotwits=0)
    ctls = [kl.Ctl(rng, nkeys=rng.choice([1, 2, 3]), wits=[]) for _ in range(rng.randint(1, 2))]
    for c in ctls:
        for _ in range(rng.randint(0, 3)):
            rng.choice([lambda: rots(c), c.ixn])()
    nts = [kl.Key(rng, False) for _ in range(2)]
    replies = {}
    n = 0
    for _ in range(rng.randint(1, 4)):
        c = rng.choice(ctls + nts[:1])
        pre = c.pre if isinstance(c, kl.Ctl) else c.qb64
        kind = rng.choice(["end", "loc", "obv"])
        other = rng.choice([x.pre for x in ctls] + [x.qb64 for x in nts])
        role = rng.choice(ROLES)
        if kind == "end":
            subject = ("end", pre, role, other)
        elif kind == "loc":
            scheme = rng.choice(["http", "https", "tcp"])
            subject = ("loc", pre, scheme)
        else:
            subject = ("obv", pre, other, kl.digest(b"w%d" % n))
        if subject in replies:
            continue
        ctx.saw("transferable" if isinstance(c, kl.Ctl) else "nontransferable")
        out = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            n += 1
            dt = stamp(base, rng.randrange(30000) * 10 + n % 10 + 300000 * 0)
            if any(r.dt == dt for r in out):
                continue
            if kind == "end":
                cut = rng.random() < 0.4
                ctx.saw("cut", cut)
                route, a, value = f"/end/role/{'cut' if cut else 'add'}", dict(cid=pre, role=role, eid=other), ("allowed", not cut)
            elif kind == "loc":
                url = rng.choice([f"{scheme}://127.0.0.1:{5000 + n}/", f"{scheme}://h{n}.example/x", ""])
                route, a, value = "/loc/scheme", dict(eid=pre, scheme=scheme, url=url), ("url", url)
            else:
                cut = rng.random() < 0.4
                route, a, value = f"/watcher/{subject[2]}/{'cut' if cut else 'add'}", dict(cid=pre, oid=subject[3]), ("enabled", not cut)
            if isinstance(c, kl.Ctl):
                est = rng.choice([e for e in c.branch if e.est])
                r = Reply(rng, subject, value, route, a, dt, (est.sn, dt), pre, est=est)
            else:
                r = Reply(rng, subject, value, route, a, dt, (0, dt), pre, key=c)
            out.append(r)
        replies[subject] = out
    allr = [r for rs in replies.values() for r in rs]
    best = {s: max(rs, key=lambda r: r.order) for s, rs in replies.items()}
    ctx.saw("replies", len(allr))

    def false(r):
        """A message about r's subject that proves nothing."""
        w = rng.choice(["altered", "other key", "other signer", "of other", "partial" if r.est else "altered", "body", "ahead" if r.est else "altered"])
        sad, raw = r.sad, r.raw
        if w == "body":      # altered content under the signature of the original
            b = bytearray(raw)
            p = raw.rindex(rb"-") if rb"-" in raw else len(raw) - 5
            b[p - 1] ^= 1
            raw = bytes(b)
        if r.key:
            k = kl.Key(rng, False) if w in ("other key", "other signer") else r.key
            sig = k.sign(r.raw + b" " if w == "of other" else r.raw)
            if w in ("altered", "partial"):
                sig = sig[:5] + bytes([sig[5] ^ 4]) + sig[6:]
            return w, kl.message(rng, raw, r.major, couples=[((r.key if w == "other key" else k).qb64, kl.csig(sig))])
        e = r.est
        if w == "other signer":
            o = kl.Ctl(rng, nkeys=1, wits=[])
            return w, kl.message(rng, raw, r.major, tsgs=[(o.pre, 0, o.branch[0].said, [kl.isig("A", 0, None, o.branch[0].keys[0].sign(raw))])])
        if w == "ahead":      # by an event not (yet) there
            ctx.saw("ahead")
            return w, kl.message(rng, raw, r.major, tsgs=[(e.pre, e.sn + rng.randint(1, 3), mg.digest(rng), [kl.isig("A", 0, None, kl.Key(rng).sign(raw))])])
        sigs = []
        for j in range(len(e.keys)):
            sig = (kl.Key(rng) if w == "other key" else e.keys[j]).sign(r.raw + b" " if w == "of other" else r.raw)
            if w == "altered":
                sig = sig[:5] + bytes([sig[5] ^ 4]) + sig[6:]
            sigs.append(kl.isig("A", j, None, sig))
        if w == "partial":
            part = sigs[:-1]
            if not part or kl.sat(e.kt, range(len(part))):
                sigs = [kl.isig("A", 0, None, kl.Key(rng).sign(r.raw))]
            else:
                ctx.saw("partial")
                sigs = part
        return w, kl.message(rng, raw, r.major, tsgs=[(e.pre, e.sn, e.said, sigs)])

    if not allr:
        return
    for order in range(3):
        v = Party(f"y{i}_{order}", lax=rng.random() < 0.5)
        todo = [("event", c, ev) for c in ctls for ev in c.branch]
        posts = [("reply", r, None) for r in allr]
        for r in allr:
            if rng.random() < 0.4:
                posts.append(("reply", r, None))
            if rng.random() < 0.4:
                posts.append(("false", r, None))
        rng.shuffle(posts)
        if old or rng.random() < 0.5:
            ctx.saw("old", old)
            todo += posts
        else:
            for p in posts:
                todo.insert(rng.randrange(len(todo) + 1), p)
        seen = {}             # subject -> orders validly delivered so far
        at = {}
        had = {}

        def check(final=False):
            rec = recorded(v.db)
            for s, x in rec.items():
                rs = [r for r in replies.get(s, ()) if r.said == x[2]]
                must(rs, "record of %s rests on a reply nobody signed: %s", s, x)
                r = rs[0]
                same(x[:2], r.value, "recorded content for %s", s)
                must(r.said in seen, "record of %s rests on reply %s that was never delivered with valid signatures", s, r.said)
                must(s not in at or r.order >= at[s], "record of %s went back from %s to %s", s, at.get(s), r.order)
                if s in at and r.order > at[s]:
                    ctx.saw("newer_accepted")
                at[s] = r.order
                stored = v.db.rpys.get(keys=(r.said,))
                must(stored is not None and stored.raw == r.raw, "reply %s in force for %s is not stored", r.said, s)
                if r.est:
                    good = {kl.unsig(q)[1] for keys, sg in v.db.tsgs.getTopItemIter(keys=(r.said, r.signer, f"{r.est.sn:032x}", r.est.said)) for q in [sg.qb64]
                            if kl.verifies(r.est.keys[sg.index].qb64, sg.raw, r.raw)}
                    must(kl.sat(r.est.kt, good), "signatures stored with reply %s in force do not meet its threshold", r.said)
            for s in had:
                must(s in rec, "record of %s vanished", s)
            had.update(rec)
            # of those processed right away the newest is in force
            for s, rs in replies.items():
                ready = [r for r in rs if r.said in seen and seen[r.said]]
                if ready and (final or True):
                    top = max(ready, key=lambda r: r.order)
                    must(s in at and at[s] >= top.order, "record of %s (%s) is older than a reply delivered with valid signatures and known keys (%s)", s, at.get(s), top.order)

        for what, r, x in todo:
            if what == "event":
                ctx.log("event", x.sn, x.pre[:6])
                v.feed(*kl.message(rng, x.raw, x.major, sigs=x.signatures(rng)))
            elif what == "reply":
                ctx.log("reply", r.subject[0], r.said[:6], r.order)
                known = r.est is None or v.sn(r.signer) >= r.est.sn
                if r.subject in at and r.order < at[r.subject]:
                    ctx.saw("stale_refused")
                if not known:
                    ctx.saw("escrowed")
                seen[r.said] = seen.get(r.said) or known
                v.feed(*r.message(rng))
            else:
                w, msg = false(r)
                ctx.log("false", w, r.said[:6])
                ctx.saw("false")
                v.feed(*msg)
            check()
            if rng.random() < 0.2:
                v.settle()
                check()
        v.settle()
        for r in allr:
            seen[r.said] = True
        v.settle()
        for s, r in best.items():
            same(recorded(v.db).get(s), r.value + (r.said,), "record of %s in the end", s)
        check(True)
        # signed again: by older keys, later keys, unknown keys; the record must stand
        for r in best.values():
            if r.est and rng.random() < 0.7:
                c = [c for c in ctls if c.pre == r.signer][0]
                for _ in range(rng.randint(1, 3)):
                    e = rng.choice([e for e in c.branch if e.est])
                    w = rng.random()
                    if w < 0.6:
                        msg = r.message(rng, est=e)
                        why = f"again by keys of {e.sn}"
                        if e.sn > r.order[0]:
                            r = next(x for x in [r])
                            r.order = (e.sn, r.dt)
                            r.est = e
                    else:
                        msg = kl.message(rng, r.raw, r.major, tsgs=[(r.signer, c.last.sn + rng.choice([1, 5]), mg.digest(rng), [kl.isig("A", 0, None, kl.Key(rng).sign(r.raw))])])
                        why = "again by unknown keys"
                    ctx.log(why, r.said[:6], r.order)
                    v.feed(*msg)
                    ctx.saw("resigned")
                    if rng.random() < 0.5:
                        v.settle()
                    check()
        for r in rng.sample(allr, min(len(allr), 4)):
            if r is not best[r.subject]:
                ctx.log("late", r.said[:6], r.order)
                v.feed(*r.message(rng))
                v.settle()
                ctx.saw("stale_refused")
                check()
        for s, r in best.items():
            same(recorded(v.db).get(s), r.value + (r.said,), "record of %s after late ones", s)
        ctx.saw("orders")
        v.close()
    ctx.case(tuple(r.said for r in allr), any(len(rs) > 1 for rs in replies.values()))


CASES = [("history", history, 100, 4000)]
