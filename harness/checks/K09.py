"""K09: receipts are recorded if and only if they verify."""
import vboot
import kellib as kl
import msggen as mg
from vh import must, same

RULE = ("each case delivers receipts of events to a real validator in every form (indexed witness signatures, couples of witnesses and watchers, groups of other identifiers), before "
        "and after the event and the receiptor's keys, among false ones (other event, other keys, other place, altered, unknown index, wrong establishment event); the recorded "
        "receipts must be made of valid ones only and hold every valid one that came in a message of its own; non-trivial if valid and false receipts were delivered")
REQUIRE = ["valid", "false", "recorded_witness", "recorded_nontrans", "recorded_trans", "before_event", "before_receiptor", "old_keys", "audited_receipts",
           "audited_transferable_receipts", "attached"]
ASSUME = ["no recovery (receipts of superseded events are dropped)", "a valid receipt in one message with a false one may be dropped with it",
          "receipts attached to an event that itself has to wait may be dropped"]


def flip(rng, sig):
    b = bytearray(sig)
    b[rng.randrange(64)] ^= 1 << rng.randrange(8)
    return bytes(b)


def world(ctx, rng, i):
    v = kl.Validator(name=f"r{i}", lax=rng.random() < 0.5)
    s = kl.Story(ctx, rng, [], v)
    ctls = [kl.Ctl(rng, nkeys=rng.choice([1, 1, 2, 3]), wits=[kl.Key(rng, False) for _ in range(rng.choice([0, 1, 3]))]) for _ in range(rng.randint(2, 3))]
    for c in ctls:
        for _ in range(rng.randint(0, 3)):
            rng.choice([c.ixn, c.rot, c.rot])()
    watch = [kl.Key(rng, False) for _ in range(2)]
    want = set()        # (kind, pre, said, ...) that must be recorded in the end
    valid = set()       # that may be
    todo = []           # (delivery or thunk)
    accepted = set()

    def nontrans(ev, key):
        pos = [k for k, w in enumerate(ev.wits) if w is key]
        return ("wig", ev.pre, ev.said, pos[0]) if pos else ("rct", ev.pre, ev.said, key.qb64)

    def good(ev):
        w = rng.random()
        signers = ev.wits + watch + [x for o in ctls for e in o.branch for x in e.wits]
        if w < 0.4:
            ks = rng.sample(range(len(signers)), min(len(signers), rng.choice([1, 1, 2])))
            ks = list({signers[k].qb64: signers[k] for k in ks}.values())
            eff = {nontrans(ev, k) for k in ks}
            return s.receipt(ev, couples=[ev.couple(k) for k in ks]), eff
        if w < 0.6 and ev.wits:
            pos = rng.sample(range(len(ev.wits)), rng.randint(1, len(ev.wits)))
            return s.receipt(ev, wigs=[ev.receipts([p])[0] for p in pos]), {("wig", ev.pre, ev.said, p) for p in pos}
        o = rng.choice([c for c in ctls if c is not ev.ctl])
        est = rng.choice([e for e in o.branch if e.est])
        if est is not o.lastest:
            ctx.saw("old_keys")
        d = s.chit(ev, o, est)
        return d, {("vrc", ev.pre, ev.said, o.pre, est.sn, est.said, kl.unsig(q)[1]) for *_, q in d.chits}

    def false(ev):
        kind = rng.choice(["couple", "wig", "chit", "chit"])
        other = rng.choice([e for c in ctls for e in c.branch if e is not ev])
        if kind == "couple":
            k = rng.choice(ev.wits + watch)
            f = rng.choice(["altered", "other event", "other key", "of the receipt", "wrong said", "wrong sn", "wrong pre"])
            sig, kwa = k.sign(ev.raw), {}
            body = kl.rct(rng, ev)
            if f == "altered":
                sig = flip(rng, sig)
            elif f == "other event":
                sig = k.sign(other.raw)
            elif f == "other key":
                sig = kl.Key(rng, False).sign(ev.raw)
            elif f == "of the receipt":
                sig = k.sign(body)
            elif f == "wrong said":
                body = kl.rct(rng, ev, said=other.said)
                sig = k.sign(rng.choice([ev.raw, other.raw])) if other.pre != ev.pre or other.sn != ev.sn else flip(rng, sig)
            elif f == "wrong sn":
                sn = rng.choice([e.sn for e in ev.ctl.branch if e is not ev] + [ev.sn + 7])
                body = kl.rct(rng, ev, sn=sn)
            else:
                body = kl.rct(rng, ev, pre=rng.choice([c.pre for c in ctls if c is not ev.ctl]))
            data, gm = kl.message(rng, body, ev.major, couples=[(k.qb64, kl.csig(sig))])
        elif kind == "wig":
            f = rng.choice(["altered", "other event", "other place", "beyond", "wrong said"]) if ev.wits else "beyond"
            p = rng.randrange(len(ev.wits)) if ev.wits else 0
            k = ev.wits[p] if ev.wits else rng.choice(watch)
            sig, body = k.sign(ev.raw), kl.rct(rng, ev)
            if f == "altered":
                sig = flip(rng, sig)
            elif f == "other event":
                sig = k.sign(other.raw)
            elif f == "other place":
                if len(ev.wits) == 1:
                    sig, f = flip(rng, sig), "altered"
                else:
                    p = (p + 1) % len(ev.wits)
            elif f == "beyond":
                p = len(ev.wits) + rng.choice([0, 0, 1, 40])
            else:
                body = kl.rct(rng, ev, said=mg.digest(rng))
            data, gm = kl.message(rng, body, ev.major, wigs=[kl.isig("B" if p < 64 else "2B", p, None, sig)])
        else:
            o = rng.choice([c for c in ctls if c is not ev.ctl])
            est = rng.choice([e for e in o.branch if e.est])
            j = rng.randrange(len(est.keys))
            f = rng.choice(["altered", "other event", "other keys", "beyond", "wrong est said", "wrong est sn", "other identifier", "wrong said"])
            sig, body, sn, said, pre = est.keys[j].sign(ev.raw), kl.rct(rng, ev), est.sn, est.said, est.pre
            if f == "altered":
                sig = flip(rng, sig)
            elif f == "other event":
                sig = est.keys[j].sign(other.raw)
            elif f == "other keys":      # another establishment event's
                es = [e for e in o.branch if e.est and e is not est and not any(x in est.keys for x in e.keys)]
                sig = rng.choice(es).keys[0].sign(ev.raw) if es else kl.Key(rng).sign(ev.raw)
                j = 0
            elif f == "beyond":
                j = len(est.keys)
            elif f == "wrong est said":
                said = rng.choice([mg.digest(rng)] + [e.said for e in o.branch if e.said != est.said])
            elif f == "wrong est sn":
                sn = rng.choice([e.sn for e in o.branch if e.sn != est.sn] + [est.sn + 9])
            elif f == "other identifier":
                pre = rng.choice([c.pre for c in ctls if c is not o] + [mg.prefix(rng)])
            else:
                body = kl.rct(rng, ev, said=mg.digest(rng))
            g = [(pre, sn, said, [kl.isig("B" if j < 64 else "2B", j, None, sig)])]
            data, gm = kl.message(rng, body, ev.major, **({"groups": g} if rng.random() < 0.5 else {"tsgs": g}))
        ctx.saw(f"false {kind}: {f}")
        return kl.Delivery(data, gm, [], f"false {kind} ({f}) of {ev.ilk} {ev.sn} of {ev.pre[:6]}"), set()

    for c in ctls:
        for ev in c.branch:
            todo += [("event", ev, d, set()) for d in s.plan(ev, hostile=0)]
            for _ in range(rng.choice([0, 1, 2, 3])):
                todo.append(("good", ev, *good(ev)))
            for _ in range(rng.choice([0, 1, 2])):
                todo.append(("false", ev, *false(ev)))
    how = rng.random()
    if how < 0.5:
        rng.shuffle(todo)
    elif how < 0.75:
        todo.sort(key=lambda t: t[0] == "event")
    else:
        todo.sort(key=lambda t: t[0] != "event")
    k = 0

    def recorded():
        out = set()
        for keys, val in v.db.wigs.getTopItemIter():
            out.add(("wig", keys[0], keys[1], val.index))
        for keys, (ver, cig) in v.db.rcts.getTopItemIter():
            out.add(("rct", keys[0], keys[1], ver.qb64))
        for keys, sig in v.db.vrcs.getTopItemIter():
            out.add(("vrc", keys[0], keys[1], keys[2], int(keys[3], 16), keys[4], sig.index))
        return out

    # Every valid receipt there is, whoever sends it
    bodies = {(e.pre, e.said): e for c in ctls for e in c.branch}

    def check():
        for r in recorded():
            ev = bodies.get((r[1], r[2]))
            must(ev is not None, "receipt recorded for an event that does not exist: %s", r)
            if ev.said not in accepted and r[0] != "wig":
                must(r[2] in {d for _, _, d in v.db.kels.getAllItemIter()}, "receipt recorded before its event was accepted: %s", r)
            must(r in valid or r[0] == "wig" and r[3] < len(ev.wits), "recorded receipt nobody gave: %s", r)

    for what, ev, d, eff in todo:
        if what == "good":
            if v.sn(ev.pre) < ev.sn:
                ctx.saw("before_event")
            for e in eff:
                if e[0] == "vrc" and v.sn(e[3]) < e[4]:
                    ctx.saw("before_receiptor")
            valid |= eff
            want |= eff
            ctx.saw("valid", len(eff))
        elif what == "false":
            ctx.saw("false")
        s.deliver(d)
        if rng.random() < 0.3:
            v.settle(rng.choice([1, 12]))
        check()
    v.settle(20)
    # everything is there now: attached to events accepted already
    for c in ctls:
        same(v.head(c.pre), c.branch[-1].said, "event in force in the end")
    for _ in range(3):
        ev = rng.choice(rng.choice(ctls).branch)
        k = rng.choice(watch + ev.wits)
        eff = {nontrans(ev, k)}
        kwa = {}
        if rng.random() < 0.5:
            o = rng.choice([c for c in ctls if c is not ev.ctl])
            est = rng.choice([e for e in o.branch if e.est])
            j = rng.randrange(len(est.keys))
            kwa["groups"] = [(est.pre, est.sn, est.said, [kl.isig("A", j, None, est.keys[j].sign(ev.raw))])]
            eff = {("vrc", ev.pre, ev.said, o.pre, est.sn, est.said, j)}
            data, gm = kl.message(rng, ev.raw, ev.major, sigs=ev.signatures(rng), **kwa)
        else:
            data, gm = kl.message(rng, ev.raw, ev.major, sigs=ev.signatures(rng), couples=[ev.couple(k)])
        valid |= eff
        want |= eff
        v.feed(data, gm)
        ctx.saw("attached")
        check()
    v.settle(20)
    check()
    got = recorded()
    missing = want - got
    must(not missing, "valid receipts not recorded: %s", sorted(missing)[:3])
    kl.audit(ctx, v.db)
    ctx.saw("recorded_witness", sum(r[0] == "wig" for r in got))
    ctx.saw("recorded_nontrans", sum(r[0] == "rct" for r in got))
    ctx.saw("recorded_trans", sum(r[0] == "vrc" for r in got))
    v.close()
    ctx.case(tuple(c.pre for c in ctls), any(t[0] == "good" for t in todo) and any(t[0] == "false" for t in todo))


CASES = [("world", world, 150, 6000)]
