"""K06: order and repetition of deliveries do not change what a validator ends up with."""
import vboot
import kellib as kl
import msggen as mg
from vh import must, same

RULE = ("each case makes one set of valid deliveries (parts of signatures, receipts by witnesses, watchers and other identifiers, delegations and approvals) and hands it to one "
        "real validator in order and to others shuffled, reversed and with repeats, processing escrows at random points; all recorded states, logs, signatures and receipts must "
        "come out equal and nothing may be left waiting; non-trivial if the orders differ")
REQUIRE = ["orders", "deliveries", "settled_states", "complete", "audited_events", "audited_receipts", "audited_delegations", "audited_transferable_receipts", "records"]
ASSUME = ["no recovery (K04 judges conflicts)", "receipts come as receipt messages or as indexed witness signatures on the event",
          "first-seen ordinals and dates depend on arrival and are not compared"]


def world(ctx, rng):
    ctls = []
    for k in range(rng.randint(1, 4)):
        d = rng.choice(ctls) if ctls and rng.random() < 0.45 else None
        ctls.append(kl.Ctl(rng, nkeys=rng.choice([1, 1, 2, 3]), wits=[kl.Key(rng, False) for _ in range(rng.choice([0, 0, 1, 3]))], delegator=d))
    todo = []
    for c in ctls:
        if c.delegator:
            todo.append((c, c.branch[0]))
        for _ in range(rng.randint(0, 3)):
            ev = rng.choice([c.ixn, c.rot])()
            if ev.est and c.delegator:
                todo.append((c, ev))
    while todo:
        c, ev = todo.pop(0)
        a = c.delegator.approve(ev, est=rng.random() < 0.3)
        if a.est and c.delegator.delegator:
            todo.append((c.delegator, a))
    return ctls


def order(ctx, rng, i):
    ctls = world(ctx, rng)
    base = kl.Validator(name=f"b{i}")
    s = kl.Story(ctx, rng, ctls, base)
    watch = [kl.Key(rng, False) for _ in range(2)]
    groups = []          # in dependency order: receiptors first, then events by chain with approvals before
    placed = set()

    def place(c, n):
        """Deliveries of the first n events of c."""
        for ev in c.branch[:n]:
            if ev.said in placed:
                continue
            placed.add(ev.said)
            if c.delegator and ev.est:
                a = [e for e in c.delegator.branch if any(isinstance(x, dict) and x.get("d") == ev.said for x in e.sad["a"])][0]
                place(c.delegator, c.delegator.branch.index(a) + 1)
            ds = s.plan(ev, hostile=0)
            ds.sort(key=lambda d: d.what.startswith("rct"))
            for w in watch:
                if rng.random() < 0.3:
                    ds.append(s.receipt(ev, couples=[ev.couple(w)]))
            groups.append(ds)
    for c in ctls:
        place(c, len(c.branch))
    for c in ctls:
        for ev in c.branch:
            for o in ctls:
                if o is not c and rng.random() < 0.25:
                    groups.append([s.chit(ev, o)])
    ds = [d for g in groups for d in g]
    for d in ds:
        s.deliver(d)
        if rng.random() < 0.3:
            base.settle()
    base.settle(20)
    s.judge(True)
    for c in ctls:
        same(base.head(c.pre), c.branch[-1].said, "event in force once everything has arrived in order")
    kl.audit(ctx, base.db)
    want = kl.records(base.db)
    same(kl.waiting(base.db), {}, "left waiting after everything arrived in order")
    ctx.saw("records", len(want))
    for k in range(3):
        v = kl.Validator(name=f"o{i}_{k}", lax=False)
        mine = list(ds)
        how = rng.choice(["shuffled", "shuffled", "reversed", "swapped"])
        if how == "shuffled":
            rng.shuffle(mine)
        elif how == "reversed":
            mine.reverse()
        else:
            for _ in range(3):
                a, b = rng.randrange(len(mine)), rng.randrange(len(mine))
                mine[a], mine[b] = mine[b], mine[a]
        for _ in range(rng.choice([0, 0, 2, 5])):
            mine.insert(rng.randrange(len(mine) + 1), rng.choice(mine))
        p = rng.choice([0, 0.1, 0.5])
        for d in mine:
            ctx.log(how, d.what)
            ctx.saw("deliveries")
            v.feed(d.data, d.gm)
            if rng.random() < p:
                v.settle(1 if rng.random() < 0.5 else 20)
        v.settle(20)
        got = kl.records(v.db)
        if got != want:
            must(False, "records after %s delivery differ from those in order: %s", how, kl.differ(got, want))
        same(kl.waiting(v.db), {}, f"left waiting after {how} delivery")
        kl.audit(ctx, v.db)
        v.close()
        ctx.saw("orders")
    base.close()
    ctx.case(tuple(c.pre for c in ctls), len(ds) > 2)


CASES = [("order", order, 130, 5000)]
