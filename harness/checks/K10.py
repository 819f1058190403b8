"""K10: own identifiers, and those witnessed or delegated by own ones, change only through local events."""
import vboot
import kellib as kl
import msggen as mg
from vh import must, same

RULE = ("each case gives a real validator a role towards an identifier (controller, witness, delegator, group member or none) and delivers its events remotely and locally, early, "
        "late and repeated, processing escrows in between; protected events must take effect only when delivered locally, others at once; non-trivial if something was delivered "
        "remotely")
REQUIRE = ["owned", "witness", "delegator", "group", "none", "remote_refused", "local_accepted", "remote_accepted", "remote_early", "local_early", "misfits", "audited_events",
           "group_remote_refused", "group_accepted", "group_without_own"]
ASSUME = ["each event is delivered with all its material in one message, except for groups"]


def role(ctx, rng, i):
    who = rng.choice(["owned", "witness", "delegator", "none", "owned"])
    v = kl.Validator(name=f"p{i}", lax=rng.random() < 0.3, direct=rng.random() < 0.5)
    d = kl.Ctl(rng, nkeys=1, wits=[]) if who == "delegator" or rng.random() < 0.3 else None
    wits = [kl.Key(rng, False) for _ in range(3 if who == "witness" else rng.choice([0, 1, 3]))]
    c = kl.Ctl(rng, nkeys=rng.choice([1, 2, 3]), wits=wits, delegator=d)
    other = kl.Ctl(rng, nkeys=1)
    own = set()
    if who == "owned":
        own = {c.pre}
    elif who == "witness":
        own = {rng.choice(wits).qb64}
    elif who == "delegator":
        own = {d.pre}
    for p in own:
        v.db.prefixes.add(p)
    ctx.saw(who)
    for _ in range(rng.randint(1, 5)):
        rng.choice([c.ixn, c.rot])()
    seals = {}

    def guarded(ev):
        return ev.pre in own or bool({w.qb64 for w in ev.wits} & own) or ev.ilk in ("dip", "drt") and ev.ctl.delegator.pre in own

    def put(ev, local):
        a = seals.get(ev.said)
        data, gm = kl.message(rng, ev.raw, ev.major, sigs=ev.signatures(rng), wigs=ev.receipts(), source=(a.sn, a.said) if a else None)
        ctx.log("local" if local else "remote", ev.ilk, ev.sn, ev.pre[:6])
        v.feed(data, gm, local=local)
        if rng.random() < 0.5:
            v.settle()

    def known():
        return {(k[0], on): d for k, on, d in v.db.kels.getAllItemIter()}, v.db.fels.cntAll()

    if d:
        put(d.branch[0], True)
    early = set()               # delivered locally before their turn
    for n, ev in enumerate(c.branch):
        if d and ev.est:
            a = d.approve(ev, est=False)
            seals[ev.said] = a
            put(a, True)
            v.settle()
        # remote deliveries of this, earlier and later events never move a protected identifier
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            e = rng.choice([ev, ev, rng.choice(c.branch)])
            if e.said not in early and e.est and d and e.said not in seals:
                continue
            if not guarded(e) or e.sn <= n - 1 or (e is not ev and any(not guarded(x) for x in c.branch)):
                if e.sn > n - 1:
                    continue
            before = known()
            put(e, False)
            v.settle()
            if e.sn >= n and not (early and ev.said in early):
                same(known(), before, "logs after a remote %s %s protected as %s", e.ilk, e.sn, who)
                ctx.saw("remote_refused")
                if e.sn > n:
                    ctx.saw("remote_early")
            elif e.sn < n:
                same(known(), before, "logs after a remote repeat of %s %s", e.ilk, e.sn)
        if not guarded(ev):
            put(ev, False)
            v.settle()
            same(v.head(c.pre), ev.said, "event in force after an unprotected remote %s (%s)", ev.ilk, who)
            ctx.saw("remote_accepted")
            continue
        if rng.random() < 0.3 and n + 1 < len(c.branch) and n and ev.said not in early and all(guarded(x) for x in c.branch):
            nx = c.branch[n + 1]
            if not (d and nx.est):
                before = known()
                put(nx, True)
                if rng.random() < 0.5:
                    put(nx, False)
                v.settle()
                same(known(), before, "logs after an event delivered too early")
                early.add(nx.said)
                ctx.saw("local_early")
        put(ev, True)
        v.settle()
        same(v.head(c.pre), (c.branch[n + 1] if n + 1 < len(c.branch) and c.branch[n + 1].said in early else ev).said, "event in force after a local %s (%s)", ev.ilk, who)
        ctx.saw("local_accepted")
    # others are not affected
    for ev in other.branch:
        put(ev, rng.random() < 0.3)
    v.settle()
    same(v.head(other.pre), other.last.said, "event in force of an unrelated identifier")
    if v.db.misfits.cntAll():
        ctx.saw("misfits", v.db.misfits.cntAll())
    kl.audit(ctx, v.db, owner=own) if not own else None
    ctx.case((c.pre, who), True)
    v.close()


def group(ctx, rng, i):
    """A member's own signatures of its group's events count only when delivered locally."""
    from keri.recording import HabitatRecord
    v = kl.Validator(name=f"g{i}")
    n = rng.choice([2, 3])
    keys = [kl.Key(rng) for _ in range(n)]
    j = rng.randrange(n)
    nexts = [kl.Key(rng) for _ in range(n)]
    g = kl.Ctl(rng, keys=keys, nexts=nexts, wits=[], basic=False)
    m = kl.Ctl(rng, keys=[keys[j]], nexts=[nexts[j]], wits=[], basic=False)
    v.db.prefixes.add(m.pre)
    v.db.prefixes.add(g.pre)
    v.db.groups.add(g.pre)
    v.db.habs.pin(keys=(g.pre,), val=HabitatRecord(hid=g.pre, mid=m.pre, name="g"))

    def feed(ev, sigs, local):
        ctx.log("local" if local else "remote", ev.ilk, ev.sn, len(sigs))
        data, gm = kl.message(rng, ev.raw, ev.major, sigs=sigs)
        v.feed(data, gm, local=local)
        v.settle()

    feed(m.branch[0], m.branch[0].signatures(rng), True)
    ctx.saw("group")
    out = False
    for step in range(rng.randint(1, 4)):
        if step == 0:
            ev = g.branch[0]
        elif out or rng.random() < 0.5:
            ev = g.ixn()
        else:
            nn = [kl.Key(rng) for _ in range(n)]
            if rng.random() < 0.6 and n == 3:          # rotated out
                pos = [x for x in range(n) if x != j]
                if not kl.sat(g.lastest.nt, pos):
                    continue
                ev = g.rot(keys=[nexts[x] for x in pos], nexts=nn, rotwits=0)
                out = True
            else:
                ev = g.rot(keys=list(nexts), nexts=nn, rotwits=0)
                r = m.rot(keys=[nexts[j]], kt="1", nexts=[nn[j]], rotwits=0)
                feed(r, r.signatures(rng), True)
            nexts = nn
        mine = [x for x, k in enumerate(ev.keys) if k is m.lastest.keys[0]]
        if out:
            mine = []
        prev = v.head(g.pre)
        sent = set()
        order = [x for x in range(len(ev.keys))]
        rng.shuffle(order)
        # remotely, in parts, with the own signature among them
        got = set()
        while order and rng.random() < 0.8:
            part = {order.pop() for _ in range(rng.randint(1, len(order)))}
            feed(ev, ev.signatures(rng, sorted(part)), False)
            sent |= part
            if part - set(mine):
                got |= part - set(mine)
            ok = ev.enough(ev.signatures(rng, sorted(got), plain=True)) if got else False
            same(v.head(g.pre), ev.said if ok else prev, "event of a group in force after remote signatures %s, own %s, threshold %s", sorted(sent), mine, ev.kt)
            if ok:
                ctx.saw("group_accepted")
                if out:
                    ctx.saw("group_without_own")
                break
            ctx.saw("group_remote_refused")
        if v.head(g.pre) != ev.said:
            feed(ev, ev.signatures(rng, mine or None), True)
            if v.head(g.pre) != ev.said:
                feed(ev, ev.signatures(rng), True)
            same(v.head(g.pre), ev.said, "event of a group in force after all signatures, own ones locally")
            ctx.saw("group_accepted")
    ctx.case((g.pre, j), True)
    v.close()


CASES = [("role", role, 120, 5000), ("group", group, 120, 2000)]
