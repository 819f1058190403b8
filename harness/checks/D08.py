"""D08: see catalog.py."""
import nativelib
import weblib
from weblib import Backend, GENS, opendb, outcome, norm, withsep
from vh import must, same, Violation

RULE = ("seeded histories of every operation both back ends offer, run in lock step on both, with misuse (empty keys, "
        "missing values) mixed in; return value or exception of each call and complete contents compared; "
        "non-trivial: at least one call changed the stores")
ASSUME = ["the lmdb binding behaves as its stand-in: ordered byte keys, cursor and snapshot transaction semantics"]
REQUIRE = ["nested_key_histories", "calls_compared", "contents_compared", "both_raised", "changes"]


def misuse(rng, name, kwa):
    k = dict(kwa)
    c = rng.random()
    if c < 0.5 and "key" in k:
        k["key"] = b""
    elif "vals" in k:
        k["vals"] = rng.choice([None, [], ()])
    elif "val" in k:
        k["val"] = None
    return k


# the browser store documents an error for an empty plain key where the native
# store documents False or None; effects of a missing plain value, and of putOnVal
# with an empty key, neither documents
UNDOC = {("putOnVal", "key"), ("putVal", "val"), ("setVal", "val"), ("putVal", "key"), ("setVal", "key"), ("getVal", "key")}


def lockstep(kind, nested=False):
    def case(ctx, rng, i):
        gen = GENS[kind](rng)
        model = gen.model()
        if nested:
            weblib.nest(gen, rng, native=True)
            ctx.saw("nested_key_histories")
        elif kind != "plain":
            model.sep = rng.choice(weblib.SEPS)
        web = opendb(Backend(), "w", ["main."])
        wsub = web.env.open_db(key=b"main.", dupsort=False)
        nat, nkey = nativelib.native()
        nsub = nat.env.open_db(key=nkey, dupsort=False)
        names = []
        for _ in range(rng.choice([10, 25, 60])):
            name, kwa = gen.op(rng, model)
            if rng.random() < 0.06:
                kwa = misuse(rng, name, kwa)
            if any((name, a) in UNDOC and a in kwa and (kwa[a] is None or (a == "key" and not kwa[a]))
                   for a in ("key", "val")):
                continue
            kwa = withsep(name, kwa, model)
            ctx.log(name, kwa)
            try:  # the model only steers generation here
                getattr(model, name)(**{k: v for k, v in kwa.items() if k != "sep"})
            except Exception:
                pass
            a = outcome(getattr(web, name), db=wsub, **kwa)
            b = outcome(getattr(nat, name), db=nsub, **kwa)
            ctx.saw("calls_compared")
            ctx.saw("op_" + name)
            if a[:2] != b[:2] or type(a[1]) is not type(b[1]):
                raise Violation(f"{name}{kwa}: browser {a!r}, native {b!r}"[:5000])
            if a[0] == "exc":
                ctx.saw("both_raised")
            if name in weblib.MUTATING and a[0] == "ret" and a[1] is not False:
                ctx.saw("changes")
                names.append((name, repr(kwa)))
            fa = norm(list(web.getTopItemIter(wsub)))
            fb = norm(list(nat.getTopItemIter(nsub)))
            if fa != fb:
                raise Violation(f"after {name}{kwa} contents differ: browser {fa!r}, native {fb!r}"[:6000])
            ctx.saw("contents_compared")
        ctx.case((kind, tuple(names)), bool(names))
        if i < 1:
            ctx.sample([f"{a} {b}"[:120] for a, b in names[:10]])
    return case


def meta(ctx, rng, i):
    """Versions and counts."""
    web = opendb(Backend(), "w", ["main."])
    nat, _ = nativelib.native("meta", every=10)
    for _ in range(4):
        v = f"{rng.randint(0, 9)}.{rng.randint(0, 20)}.{rng.randint(0, 3)}"
        x = v if rng.random() < 0.5 else v.encode()
        a = outcome(setattr, web, "version", x)
        b = outcome(setattr, nat, "version", x)
        same(a[0], b[0], "set version %r", x)
        same(web.getVer(), nat.getVer(), "getVer")
        same(web.version, nat.version, "version")
        same(web.version, v, "version value")
        ctx.saw("calls_compared", 3)
        ctx.saw("versions")
    ctx.case(("meta", i), True)


def nestedback(ctx, rng, i):
    """Back from the largest ordinal of a key, past the records of a longer one."""
    web = opendb(Backend(), "w", ["main."])
    wsub = web.env.open_db(key=b"main.", dupsort=False)
    nat, nkey = nativelib.native("nb")
    nsub = nat.env.open_db(key=nkey, dupsort=False)
    low, high = b"pre%d" % i, b"pre%d" % i + rng.choice([b".z", b".b", b".topic"])
    for j in range(rng.randint(2, 6)):
        for key in (low, high):
            for db, sub in ((web, wsub), (nat, nsub)):
                must(db.addOnIoSetVal(sub, key, on=j, val=b"v%d" % j) is True, "not added")
    for name in ("getOnAllIoSetItemBackIter", "getOnAllIoSetLastItemBackIter"):
        for key in (high, low):
            a, b = outcome(getattr(web, name), db=wsub, key=key), outcome(getattr(nat, name), db=nsub, key=key)
            ctx.saw("nested_back")
            if a != b:
                if key == low and b == ("ret", ["iter"]):
                    ctx.known("nested-back", f"{name} at {key} above records of {high}: browser {a!r}, native nothing")
                else:
                    raise Violation(f"{name}({key}): browser {a!r}, native {b!r}"[:3000])
    ctx.case(("nestedback", i), True)


CASES = [("nestedback", nestedback, 6, 60)] + [(k, lockstep(k), 4000, 60000) for k in GENS] + [(k + "_nested", lockstep(k, True), 500, 8000) for k in ("on", "io", "onio")] + [("meta", meta, 80, 500)]
