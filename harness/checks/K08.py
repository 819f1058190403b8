"""K08: whatever is delivered, the stored logs are verifiable chains at every moment."""
import vboot
import kellib as kl
import msggen as mg
from vh import must, same

RULE = ("each case delivers a mixture of valid, partial, false, conflicting, superseded, unordered and repeated events and receipts about several identifiers to a real validator "
        "and audits the whole database from raw bytes after every delivery and after every escrow pass; non-trivial if at least ten deliveries were audited")
REQUIRE = ["audits", "audited_events", "audited_states", "audited_receipts", "audited_delegations", "superseded_redelivered", "polluted_deliveries", "conflicts", "recoveries", "lost_order"]
ASSUME = ["the auditor (kellib.audit) recomputes digests, chaining, thresholds, commitments and signatures from the stored bytes"]


def mix(ctx, rng, i):
    v = kl.Validator(name=f"m{i}", lax=rng.random() < 0.5)
    s = kl.Story(ctx, rng, [], v)
    ctls = []
    for k in range(rng.randint(1, 3)):
        d = rng.choice(ctls) if ctls and rng.random() < 0.4 else None
        ctls.append(kl.Ctl(rng, nkeys=rng.choice([1, 2, 3]), wits=[kl.Key(rng, False) for _ in range(rng.choice([0, 0, 1, 3]))], delegator=d))
    watch = [kl.Key(rng, False) for _ in range(2)]
    queue = []
    done = []

    def event(c, ev):
        if c.delegator and ev.est and rng.random() < 0.9:
            event(c.delegator, c.delegator.approve(ev, est=rng.random() < 0.2))
        queue.extend(s.plan(ev, hostile=0.3))

    for c in ctls:
        event(c, c.branch[0])
    for _ in range(rng.randint(3, 8)):
        c = rng.choice(ctls)
        w = rng.random()
        tail = [e for e in c.branch if e.sn > c.lastest.sn]
        if w < 0.2 and tail:
            event(c, c.rot(at=rng.choice(tail).sn))
            ctx.saw("recoveries")
        elif w < 0.35 and len(c.branch) > 1:
            ev = rng.choice([c.ixn, c.rot])(at=rng.choice(c.branch[1:]).sn, push=False)
            queue.extend(s.plan(ev, hostile=0))
            ctx.saw("conflicts")
        else:
            event(c, rng.choice([c.ixn, c.ixn, c.rot])())
    for _ in range(rng.randint(0, 4)):
        c, o = rng.choice(ctls), rng.choice(ctls)
        if c is not o:
            queue.append(s.chit(rng.choice(c.events), o))
        ev = rng.choice(c.events)
        w = rng.choice(watch)
        queue.append(s.receipt(ev, couples=[ev.couple(w)]))
    n = 0

    def check():
        kl.audit(ctx, v.db)
        ctx.saw("audits")

    def send(d):
        nonlocal n
        n += 1
        ctx.log(d.what)
        ctx.saw("deliveries")
        v.feed(d.data, d.gm)
        check()
        if rng.random() < 0.3:
            ctx.log("escrows")
            v.settle(1)
            check()

    if rng.random() < 0.4:
        ctx.saw("lost_order")
        rng.shuffle(queue)
    while queue:
        d = queue.pop(0)
        if rng.random() < 0.1 and queue:
            queue.insert(rng.randrange(len(queue)), d)
            continue
        send(d)
        # events already stored again with more signatures, valid and not
        if rng.random() < 0.35:
            c = rng.choice(ctls)
            ev = rng.choice(c.events)
            sigs = [kl.badsigs(rng, ev, rng.choice(c.events)) for _ in range(rng.randint(1, 2))]
            if rng.random() < 0.6:
                sigs.insert(rng.randrange(len(sigs) + 1), ev.signatures(rng, [rng.randrange(len(ev.keys))])[0])
            if ev not in c.branch:
                ctx.saw("superseded_redelivered")
            ctx.saw("polluted_deliveries")
            send(s.event(ev, sigs, wits=[rng.randrange(len(ev.wits))] if ev.wits and rng.random() < 0.3 else [], pure=False))
    v.settle(20)
    check()
    v.close()
    ctx.case(tuple(c.pre for c in ctls), n >= 10)


CASES = [("mix", mix, 60, 4000)]
