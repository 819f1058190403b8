"""K02: rotations need the committed next keys, observed at a real validator fed with rotations of every shape and forgeries."""
import vboot
import kellib as kl
import msggen as mg
from vh import must, same

RULE = ("each case drives a controller built from scratch through rotations and interactions; before each accepted event, forged events (wrong, too few or unexposed keys, "
        "wrong chaining, witness changes, thresholds, type or traits) are delivered fully signed, and rotations with too few exposing signatures; acceptance is compared with "
        "an independent count; non-trivial if at least one forgery was delivered")
REQUIRE = ["forged", "accepted", "under_exposed", "abandoned", "nontransferable", "establishment_only", "audited_events", "forged: interaction after abandonment",
           "inception with nothing", "inception with seals", "inception with witnesses", "inception with next keys"]
ASSUME = ["Ed25519 keys; libsodium verifies correctly"]


def forge(ctx, rng, c):
    """(event, signatures, why) that must never be accepted next."""
    est = c.lastest
    nxt = est.next
    opts = ["prior", "twice", "sn0", "ixnprior"]
    if not nxt:
        opts += ["dead", "deadixn"]
    if nxt:
        opts += ["fresh", "current", "few", "unexposed", "wrongondex", "cuts", "adds", "addsdup", "cutsdup", "toadbig", "toadzero", "ktbig", "foreign", "both", "type", "notnext", "mixed"]
    if "EO" in c.traits:
        opts += ["ixn"] * 3
    w = rng.choice(opts)
    kwa = dict(push=False)
    if not nxt and w in ("dead", "deadixn"):
        ev = c.ixn(push=False)
        return ev, ev.signatures(rng), "interaction after abandonment"
    if not nxt and w in ("prior", "sn0"):
        ev = c.rot(keys=[kl.Key(rng)], **kwa)
        return ev, ev.signatures(rng), "rotation after abandonment"
    if w == "ixn":
        ev = c.ixn(push=False)
        return ev, ev.signatures(rng), "interaction in establishment only log"
    if w == "ixnprior":
        ev = c.ixn(push=False, p=rng.choice([mg.digest(rng)] + [e.said for e in c.branch[:-1]]))
        return ev, ev.signatures(rng), "interaction with wrong prior"
    if w == "twice":
        o = kl.Ctl(rng, transferable=rng.random() < 0.7)
        ev = o.branch[0]
        sad = dict(ev.sad, i=c.pre)
        sad, raw = mg.finish(sad, o.kind, {"d": "E"})
        f = kl.Ev(o, sad, raw, ev.keys, ev.kt, ev.wits, ev.toad, None, ev.ndigs, ev.nt)
        return f, f.signatures(rng), "second inception"
    if w == "prior":
        ev = c.rot(p=rng.choice([mg.digest(rng), nxt[0].digest()] + [e.said for e in c.branch[:-1]]), **kwa)
        return ev, ev.signatures(rng), "rotation with wrong prior"
    if w == "sn0":
        ev = c.rot(s=rng.choice([x for x in ("0", f"{est.sn:x}") ]), **kwa)
        return ev, ev.signatures(rng), "rotation numbered as an accepted establishment event"
    if w == "fresh":
        ev = c.rot(keys=[kl.Key(rng) for _ in range(len(nxt))], **kwa)
    elif w == "current":
        ev = c.rot(keys=list(est.keys), **kwa)
    elif w == "notnext":   # next keys of an older event
        old = [e for e in c.branch if e.est][0]
        ev = c.rot(keys=list(old.next) if old is not est else [kl.Key(rng)], **kwa)
    elif w == "few":
        ev = c.rot(keys=rng.sample(nxt, rng.randint(1, len(nxt))), kt="1", **kwa)
    elif w == "mixed":
        ev = c.rot(keys=[kl.Key(rng)] + rng.sample(nxt, rng.randint(0, len(nxt) - 1)), kt="1", **kwa)
    elif w == "unexposed":
        ev = c.rot(**kwa)
        s = [kl.isig("2B" if rng.random() < 0.5 else "B", j, None, k.sign(ev.raw)) for j, k in enumerate(ev.keys)]
        return ev, s, "rotation exposing nothing"
    elif w == "wrongondex":
        ev = c.rot(**kwa)
        s = [kl.isig("2A", j, (len(nxt) if len(nxt) == 1 else rng.choice([x for x in range(len(nxt) + 1) if x >= len(nxt) or nxt[x] is not k])), k.sign(ev.raw))
             for j, k in enumerate(ev.keys)]
        return ev, s, "rotation exposing other positions"
    elif w == "foreign":
        ev = c.rot(**kwa)
        s = [kl.isig("A", j, None, kl.Key(rng).sign(ev.raw)) for j, k in enumerate(ev.keys)]
        return ev, s, "rotation signed by others"
    elif w == "type":
        ev = c.rot(ilk="rot" if c.delegator else "drt", **kwa)
        return ev, ev.signatures(rng), "rotation of the other type"
    else:
        have = [x.qb64 for x in est.wits]
        new = kl.Key(rng, False).qb64
        over = dict(cuts=dict(br=[new], ba=[]), adds=dict(br=[], ba=have[:1] or [new, new]), addsdup=dict(br=[], ba=[new, new]), cutsdup=dict(br=(have[:1] or [new]) * 2, ba=[]),
                    toadbig=dict(br=[], ba=[], bt=f"{len(have) + 1:x}"), toadzero=dict(br=[], ba=[] if have else [new], bt="0"), ktbig=dict(kt=f"{len(nxt) + 5:x}"),
                    both=dict(br=have[:1] or [new], ba=have[:1] or [new]))[w]
        ev = c.rot(rotwits=0, reserve=0, **kwa, **over)
        if w == "toadzero":
            ev.wits = est.wits
        if w == "adds" and not have or w in ("toadbig", "toadzero", "ktbig", "adds", "cuts", "cutsdup", "addsdup", "both"):
            return ev, ev.signatures(rng), f"rotation with bad {w}"
    s = ev.signatures(rng)
    return ev, s, f"rotation with {w} keys"


def history(ctx, rng, i):
    traits = rng.choice([[], [], [], ["EO"], ["DND"], ["EO", "DND"]])
    c = kl.Ctl(rng, nkeys=rng.choice([1, 2, 3, 5]), traits=traits, transferable=rng.random() > 0.08, empty=rng.random() < 0.05,
               wits=[kl.Key(rng, False) for _ in range(rng.choice([0, 0, 0, 2, 3]))])
    v = kl.Validator(lax=rng.random() < 0.3)
    s = kl.Story(ctx, rng, [c], v)

    def forgeries():
        for _ in range(rng.choice([0, 1, 2, 3])):
            ev, sigs, why = forge(ctx, rng, c)
            if ev.ilk in ("rot", "drt") and why.endswith("keys") and ev.enough(sigs):
                continue
            n = v.db.kels.cntAll()
            head = v.head(c.pre)
            data, gm = kl.message(rng, ev.raw, ev.major, sigs=sigs, wigs=ev.receipts())
            ctx.log("forged", why)
            v.feed(data, gm)
            if rng.random() < 0.5:
                v.settle()
            same((v.head(c.pre), v.db.kels.cntAll()), (head, n), "state after %s", why)
            ctx.saw("forged")
            ctx.saw("forged: " + why)
            ctx.case((ev.said, why))

    def put(ev):
        if ev.ilk in ("rot", "drt") and rng.random() < 0.35:
            # too few exposing signatures first, though perhaps enough current ones
            for _ in range(10):
                part = rng.sample(range(len(ev.keys)), rng.randint(1, len(ev.keys)))
                sg = ev.signatures(rng, part)
                if rng.random() < 0.5:
                    sg = [kl.isig("B", j, None, ev.keys[j].sign(ev.raw)) for j in part]
                if not ev.enough(sg):
                    s.deliver(s.event(ev, sg, list(range(len(ev.wits)))))
                    v.settle()
                    s.judge(True)
                    cur, exp = ev.counts(sg)
                    if kl.sat(ev.kt, cur):
                        ctx.saw("under_exposed")
                    break
        for d in s.plan(ev, hostile=0.2):
            s.deliver(d)
        v.settle()
        s.judge(True)
        same(v.head(c.pre), ev.said, "event in force")
        ctx.saw("accepted")

    put(c.branch[0])
    for step in range(rng.randint(1, 5)):
        forgeries()
        if not c.lastest.next:
            break
        mk = c.rot if "EO" in traits or rng.random() < 0.65 else c.ixn
        ev = c.rot(push=False, empty=True) if rng.random() < 0.1 else mk(push=False)
        c.push(ev)
        s.chain[c.pre] = list(c.branch)
        put(ev)
    forgeries()
    if not c.lastest.next:
        ctx.saw("nontransferable" if c.lastest is c.branch[0] else "abandoned")
    if "EO" in traits:
        ctx.saw("establishment_only")
    kl.audit(ctx, v.db)
    v.close()


def inception(ctx, rng, i):
    """A basic non-transferable identifier commits to nothing; thresholds and witnesses are within bounds."""
    new, w = [kl.Key(rng) for _ in range(2)], [kl.Key(rng, False) for _ in range(3)]
    w3 = [x.qb64 for x in w]
    bare = rng.random() < 0.5
    opts = {"nothing": {}}
    if bare:
        opts |= {"next keys": dict(n=[new[0].digest()], nt="1"), "seals": dict(a=[dict(d=mg.digest(rng))]), "witnesses": dict(b=w3[:rng.randint(1, 3)], bt="1"),
                 "unwitnessed witnesses": dict(b=w3, bt="0")}
    else:
        opts |= {"repeated witness": dict(b=[w3[0], w3[1], w3[0]], bt="1"), "threshold over witnesses": dict(b=w3, bt="4"), "threshold without witnesses": dict(b=[], bt="1"),
                 "zero threshold": dict(b=w3, bt="0"), "too high a threshold": dict(kt="9"), "weights over keys": dict(kt=["1/2"] * 9)}
    why = rng.choice(list(opts))
    c = kl.Ctl(rng, transferable=not bare, basic=True if bare else None, nkeys=1 if bare else None, over=opts[why])
    ev = c.branch[0]
    v = kl.Validator(lax=rng.random() < 0.3)
    wigs = [kl.isig("B", j, None, k.sign(ev.raw)) for j, k in enumerate(w[:len(ev.sad["b"])])] if why != "nothing" else ev.receipts()
    if why == "repeated witness":
        wigs[2] = kl.isig("B", 2, None, w[0].sign(ev.raw))
    ctx.log(why, ev.sad)
    v.feed(*kl.message(rng, ev.raw, ev.major, sigs=ev.signatures(rng), wigs=wigs))
    v.settle()
    same(v.head(c.pre), ev.said if why == "nothing" else None, "inception with %s of %s", why, "a bare key" if bare else "a transferable identifier")
    kl.audit(ctx, v.db)
    v.close()
    ctx.saw("inception with " + why)
    ctx.case(ev.said, why != "nothing")


CASES = [("history", history, 500, 12000), ("inception", inception, 250, 3000)]
