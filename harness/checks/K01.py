"""K01: signing thresholds, observed at a real validator fed with partial, repeated, re-encoded and false signatures."""
import vboot
import kellib as kl
from vh import must, same

RULE = ("each case builds a controller from scratch (1..8, sometimes 70 keys, numeric, weighted and nested thresholds), delivers its events with random parts of their "
        "signatures mixed with false ones, in order or not, and compares acceptance after every delivery with an independent count of valid signatures; non-trivial if "
        "some event was first short of its threshold")
REQUIRE = ["deliveries", "settled_states", "held_back", "complete", "late_completions", "audited_events"]
ASSUME = ["Ed25519 keys; libsodium verifies correctly", "deliveries that mix valid and false signatures may or may not contribute their valid ones"]


def controller(ctx, rng, wits=()):
    n = rng.choice([1, 2, 3, 3, 4, 5, 8] + ([70] if rng.random() < 0.05 else []))
    c = kl.Ctl(rng, nkeys=n, wits=list(wits), basic=None if n == 1 else False)
    for _ in range(rng.randint(1, 4)):
        rng.choice([c.ixn, c.rot])()
    return c


def pick(rng, ev, enough):
    """Positions that do or do not suffice."""
    n = len(ev.keys)
    for _ in range(30):
        pos = rng.sample(range(n), rng.randint(1, n))
        if ev.enough(ev.signatures(rng, pos, plain=True)) == enough:
            return pos
    return list(range(n)) if enough else None


def inorder(ctx, rng, i):
    c = controller(ctx, rng)
    v = kl.Validator(lax=rng.random() < 0.3)
    s = kl.Story(ctx, rng, [c], v)
    short = 0
    stop = rng.randrange(len(c.branch) * 2)
    for k, ev in enumerate(c.branch):
        lack = pick(rng, ev, False) if rng.random() < 0.6 or k == stop else None
        if lack:
            short += 1
            for d in s.plan(ev, sigs=lack, hostile=0.6):
                s.deliver(d)
                s.judge(False)
            v.settle()
            s.judge(True)
            if k == stop:
                break
            rest = pick(rng, ev, True)
            rest = [x for x in rest if x not in lack] if rng.random() < 0.5 else rest
            rest = rest or list(range(len(ev.keys)))
            rest = rest if ev.enough(ev.signatures(rng, set(rest) | set(lack), plain=True)) else list(range(len(ev.keys)))
            for d in s.plan(ev, sigs=rest, hostile=0.3):
                s.deliver(d)
            ctx.saw("late_completions")
        else:
            for d in s.plan(ev, sigs=pick(rng, ev, True), hostile=0.3):
                s.deliver(d)
        s.judge(False)
        v.settle()
        s.judge(True)
    kl.audit(ctx, v.db)
    v.close()
    ctx.case((c.pre, stop), short > 0)


def anyorder(ctx, rng, i):
    cs = [controller(ctx, rng) for _ in range(rng.choice([1, 2]))]
    v = kl.Validator()
    s = kl.Story(ctx, rng, cs, v)
    ds = []
    short = 0
    for c in cs:
        for ev in c.branch:
            lack = pick(rng, ev, False) if rng.random() < 0.3 else None
            short += bool(lack)
            ds += s.plan(ev, sigs=lack or pick(rng, ev, True), hostile=0.4)
            if lack and rng.random() < 0.7:
                ds += s.plan(ev, hostile=0.2)
    rng.shuffle(ds)
    if rng.random() < 0.4:
        ds += rng.sample(ds, rng.randint(0, len(ds)))
    for d in ds:
        s.deliver(d)
        s.judge(False)
        if rng.random() < 0.15:
            v.settle(1 if rng.random() < 0.5 else 12)
            s.judge(False)
    v.settle()
    s.judge(True)
    before = v.digest()
    fels = v.db.fels.cntAll()
    for d in rng.sample(ds, min(4, len(ds))):
        if all(p for *_, p in d.eff):
            s.deliver(d)
    v.settle()
    s.judge(True)
    same(v.db.fels.cntAll(), fels, "first seen entries after events were delivered again")
    kl.audit(ctx, v.db)
    v.close()
    ctx.case(tuple(c.pre for c in cs), short > 0)


CASES = [("inorder", inorder, 180, 5000), ("anyorder", anyorder, 180, 5000)]
