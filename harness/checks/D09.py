"""D09: see catalog.py."""
import nativelib
import weblib
from weblib import Backend, GENS, MUTATING, opendb, norm, withsep
from vh import Violation

RULE = ("seeded store contents, then one iteration of some view with mutations (removal of the visited entry, of others, "
        "additions, whole-branch removals) between steps, on both back ends; items yielded compared with the model's answer "
        "when the iteration began, final contents with the model; non-trivial: something changed while iterating")
ASSUME = ["the lmdb binding behaves as its stand-in: read transactions are snapshots"]
REQUIRE = ["nested_key_loops", "wide_loops", "steps", "changed_while_iterating", "visited_removed", "loops_web", "loops_native"]


def apply(ctx, rng, gen, model, db, sdb):
    """One mutating operation on the model and the store."""
    for _ in range(30):
        name, kwa = gen.op(rng, model)
        if name in MUTATING:
            break
    else:
        return False
    return do(ctx, gen, model, db, sdb, name, kwa)


def do(ctx, gen, model, db, sdb, name, kwa):
    ctx.log(name, kwa)
    before = gen.want(model)
    want = getattr(model, name)(**kwa)
    got = weblib.outcome(getattr(db, name), db=sdb, **withsep(name, kwa, model))
    if isinstance(want, type):
        return False
    if got[0] == "exc" or got[1] != want:
        raise Violation(f"{name}{kwa} inside loop returned {got!r}, expected {want!r}")
    return gen.want(model) != before


def drop(kind, model, item, iname):
    """Call which removes the entry just visited."""
    if kind == "plain":
        return "remVal", dict(key=item[0])
    if kind == "on":
        return "remOn", dict(key=item[0], on=item[1])
    if kind == "io":
        if not isinstance(item, tuple):
            return None
        return "remIoSetVal", dict(key=item[0], val=item[1])
    return "remOnIoSetVal", dict(key=item[0], on=item[1], val=item[2])


def loops(kind, native, wide=False, nested=False):
    def case(ctx, rng, i):
        gen = GENS[kind](rng)
        model = gen.model()
        if nested:
            weblib.nest(gen, rng, native=native)
            ctx.saw("nested_key_loops")
        elif kind != "plain":
            model.sep = rng.choice(weblib.SEPS)
        if native:
            db, key = nativelib.native("d09")
            sdb = db.env.open_db(key=key, dupsort=False)
        else:
            db = opendb(Backend(), "w", ["main."])
            sdb = db.env.open_db(key=b"main.", dupsort=False)
        if wide:
            key, n, on = rng.choice(gen.keys), max(1, rng.choice([64, 100, 128, 200, 256, 300, 512, 600]) + rng.randint(-2, 2)), rng.choice([0, 1, 3])
            fill = {"plain": [("putVal", dict(key=key + b".%04x" % j, val=b"w%d" % j)) for j in range(n)],
                    "on": [("appendOnVal", dict(key=key, val=b"w%d" % j)) for j in range(n)],
                    "io": [("putIoSetVals", dict(key=key, vals=[b"w%d" % j for j in range(n)]))],
                    "onio": [("putOnIoSetVals", dict(key=key, on=on, vals=[b"w%d" % j for j in range(n)]))] if on else
                            [("appendOnIoSetVals", dict(key=key, vals=[b"w%d" % j, b"x"])) for j in range(n // 2 + 1)]}[kind]
            for call in fill:
                do(ctx, gen, model, db, sdb, *call)
            gen.keys += [key] * 3
            ctx.saw("wide_loops")
        for _ in range(rng.choice([8, 20, 40])):
            apply(ctx, rng, gen, model, db, sdb)
        changed = 0
        for _ in range(3):
            for _ in range(200):
                name, kwa = gen.op(rng, model)
                if "Iter" in name:
                    break
            else:
                continue
            want = getattr(model, name)(**kwa)
            if not isinstance(want, list):
                continue
            want = want[1:]
            ctx.log("iterate", name, kwa)
            mode = rng.choice(["visited", "any", "both", "rem_all"])
            it = iter(getattr(db, name)(db=sdb, **withsep(name, kwa, model)))
            seen = []
            while True:
                try:
                    item = norm(next(it))
                except StopIteration:
                    break
                seen.append(item)
                ctx.saw("steps")
                if len(seen) > len(want) + 50:
                    break
                if mode in ("visited", "both"):
                    d = drop(kind, model, item, name)
                    if d and do(ctx, gen, model, db, sdb, *d):
                        changed += 1
                        ctx.saw("visited_removed")
                if mode == "rem_all" and len(seen) == 1:
                    for k in sorted({k for k in gen.keys}):
                        nm = dict(plain="remVal", on="remOnAll", io="remIoSet", onio="remOnAllIoSet")[kind]
                        changed += do(ctx, gen, model, db, sdb, nm, dict(key=k))
                if mode in ("any", "both"):
                    for _ in range(rng.randint(0, 3)):
                        changed += bool(apply(ctx, rng, gen, model, db, sdb))
            if seen != want:
                raise Violation(f"{name}{kwa} with changes inside the loop ({mode}) visited {seen!r}, expected {want!r}"[:6000])
            ctx.saw("loops_native" if native else "loops_web")
            full = gen.full(db, sdb) if kind == "plain" else gen.full(db, sdb, sep=model.sep)
            if full != gen.want(model):
                raise Violation(f"contents after loop {full!r}, expected {gen.want(model)!r}"[:6000])
        ctx.saw("changed_while_iterating", changed)
        ctx.case((kind, native, tuple(map(repr, ctx.trail))), changed)
        if i < 1:
            ctx.sample([str(t)[:120] for t in ctx.trail[-12:]])
    return case


CASES = [(f"{k}_{'native' if n else 'web'}", loops(k, n), 600, 12000) for k in GENS for n in (0, 1)] + [(f"{k}_wide", loops(k, False, True), 60, 800) for k in GENS] + [(f"{k}_nested_{'native' if n else 'web'}", loops(k, n, nested=True), 150, 3000) for k in ("on", "io", "onio") for n in (0, 1)]
