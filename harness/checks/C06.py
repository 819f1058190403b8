"""C06: see catalog.py."""
import itertools
import json
from fractions import Fraction

import vboot
import nativelib
from vh import Violation, must, same

RULE = ("seeded numeric and weighted thresholds (nested groups, several clauses) supplied in every form, each judged on every "
        "subset of positions when small and on sampled lists with repeats, order changes and foreign positions; verdicts "
        "compared with an independent exact evaluation; non-trivial: a threshold was judged on at least one satisfying and "
        "one failing set, or a malformed one was offered")
ASSUME = ["positions are non-negative"]
REQUIRE = ["verdicts_true", "verdicts_false", "numeric", "weighted", "nested", "multi_clause", "with_repeats", "foreign_positions",
           "conversions", "refused"]


def fr(w):
    return Fraction(w)


def evaluate(spec, idxs):
    """Independent: spec is int or list of clauses; clause element 'w' or (w, [w...])."""
    s = set(idxs)
    if isinstance(spec, int):
        return spec > 0 and len(s) >= spec
    n = sum(len(e[1]) if isinstance(e, tuple) else 1 for c in spec for e in c)
    if not s or any(i >= n for i in s):
        return False
    pos = 0
    ok = True
    for c in spec:
        tot = Fraction(0)
        for e in c:
            if isinstance(e, tuple):
                g = sum((fr(w) for k, w in enumerate(e[1]) if pos + k in s), Fraction(0))
                pos += len(e[1])
                if g >= 1:
                    tot += fr(e[0])
            else:
                if pos in s:
                    tot += fr(e)
                pos += 1
        ok = ok and tot >= 1
    return ok


def weight(rng):
    d = rng.choice([1, 2, 2, 3, 4, 5, 6, 7, 8, 10, 12, 100, 997])
    n = rng.randint(0, d) if rng.random() < 0.3 else rng.randint(1, d)
    f = Fraction(n, d)
    return f"{f.numerator}/{f.denominator}" if 0 < f < 1 else str(int(f))


def group(rng):
    while True:
        g = [weight(rng) for _ in range(rng.randint(1, 4))]
        if sum(map(fr, g)) >= 1:
            return g


def clause(rng, nested):
    for _ in range(200):
        c = [(weight(rng), group(rng)) if nested and rng.random() < .35 else weight(rng) for _ in range(rng.randint(1, 5))]
        if sum(fr(e[0]) if isinstance(e, tuple) else fr(e) for e in c) >= 1:
            return c
    return ["1"]


def exact(rng):
    """Clause summing to exactly one, so that a single position decides."""
    d = rng.choice([2, 3, 4, 5, 6, 7, 9, 11])
    left, c = d, []
    while left:
        n = rng.randint(1, left)
        c.append(n)
        left -= n
    c += rng.sample([0, 0, 1], 1)
    rng.shuffle(c)
    out = []
    for n in c:
        f = Fraction(n, d)
        out.append(f"{f.numerator}/{f.denominator}" if 0 < f < 1 else str(int(f)))
    return out


def sith(spec):
    return [[{e[0]: list(e[1])} if isinstance(e, tuple) else e for e in c] for c in spec]


def thold(spec):
    return [[(fr(e[0]), [fr(w) for w in e[1]]) if isinstance(e, tuple) else fr(e) for e in c] for c in spec]


def size(spec):
    return spec if isinstance(spec, int) else sum(len(e[1]) if isinstance(e, tuple) else 1 for c in spec for e in c)


def forms(rng, spec):
    """Every way to supply the same threshold."""
    if isinstance(spec, int):
        h = f"{spec:x}"
        return [dict(thold=spec), dict(sith=spec), dict(sith=h), dict(sith=h.upper()), dict(sith="0" * rng.randint(1, 3) + h)]
    s = sith(spec)
    out = [dict(sith=s), dict(sith=json.dumps(s)), dict(thold=thold(spec)), dict(sith=tuple(tuple(c) for c in s))]
    if len(spec) == 1:
        out += [dict(sith=s[0]), dict(sith=json.dumps(s[0]))]
    return out


def case(ctx, rng, i):
    from keri.core.coring import Tholder
    if rng.random() < 0.3:
        spec = rng.choice([0, 1, 2, 3, 4, 5, 9, 10, 15, 16, 17, 63, 64, 255, 256, 2 ** 16, 2 ** 24 + 1])
        ctx.saw("numeric")
    else:
        nested = rng.random() < 0.5
        n = rng.choice([1, 1, 2, 2, 3])
        spec = [exact(rng) if rng.random() < 0.4 else clause(rng, nested) for _ in range(n)]
        ctx.saw("weighted")
        if any(isinstance(e, tuple) for c in spec for e in c):
            ctx.saw("nested")
        if n > 1:
            ctx.saw("multi_clause")
    n = size(spec)
    tholders = [Tholder(**f) for f in forms(rng, spec)]
    t0 = tholders[0]
    for t in tholders:
        same(t.sith, t0.sith, "sith of equal thresholds %r", spec)
        same(t.limen, t0.limen, "limen of equal thresholds %r", spec)
        same(t.size, n, "size of %r", spec)
        same(t.weighted, not isinstance(spec, int), "weighted")
    if isinstance(spec, int):
        same(t0.sith, f"{spec:x}", "sith")
        same(t0.num, spec, "num")
        same(t0.thold, spec, "thold")
    else:
        same(t0.sith if len(spec) > 1 else [t0.sith], sith(spec), "sith")
        same(t0.thold, thold(spec), "thold")
        same(t0.num, None, "num")
    more = [Tholder(limen=t0.limen), Tholder(limen=t0.limen.decode()), Tholder(sith=t0.sith), Tholder(thold=t0.thold),
            Tholder(sith=json.loads(t0.json)) if not isinstance(spec, int) else Tholder(sith=json.loads(t0.json))]
    strm = bytearray(t0.limen + b"tail")
    more.append(Tholder(limen=strm, strip=True))
    same(bytes(strm), b"tail", "stream after stripping limen of %r", spec)
    for t in more:
        same((t.sith, t.limen, t.size, t.weighted, t.thold), (t0.sith, t0.limen, t0.size, t0.weighted, t0.thold),
             "threshold %r after conversion", spec)
        ctx.saw("conversions")
    # verdicts
    pick = rng.choice(tholders + more)
    lists = [[]]
    if n <= 9:
        lists = [list(c) for k in range(n + 1) for c in itertools.combinations(range(n), k)]
        if len(lists) > 160:
            lists = rng.sample(lists, 160)
    else:
        for _ in range(40):
            m = min(n + 3, 400)
            k = rng.choice([n - 1, n, n + 1, rng.randint(0, m)]) if n < 400 else rng.randint(0, m)
            lists.append(rng.sample(range(max(m, k)), min(k, max(m, k))))
    t = f = 0
    for l in lists:
        want = evaluate(spec, l)
        tries = [l]
        if l:
            r = l + [rng.choice(l) for _ in range(rng.randint(1, max(2, min(n, 20))))]
            rng.shuffle(r)
            tries.append(r)
            ctx.saw("with_repeats")
        if not isinstance(spec, int):
            tries.append(l + [n + rng.randint(0, 3)])
            ctx.saw("foreign_positions")
        for x in tries:
            w = evaluate(spec, x)
            for y in (x, tuple(x)):
                got = pick.satisfy(y)
                if got is not w and not (got == w and isinstance(got, bool)):
                    raise Violation(f"threshold {spec!r} on positions {y!r}: {got!r}, expected {w}")
            ctx.saw("verdicts_true" if w else "verdicts_false")
        t += want
        f += not want
    ctx.case(repr(spec), t and f or not isinstance(spec, int))
    if i < 2:
        ctx.sample(dict(threshold=repr(spec), satisfied=t, unsatisfied=f))


BAD = [-1, "-1", "", [], [[]], None, "g", "1/2", ["1/3", "1/2"], [["1"], ["1/2"]], ["1/2", "1/3"], ["3/2"], ["2"], ["-1", "1", "1"],
       ["0.5", "0.5"], [0.5, 0.5], [1], ["1", 1], [["1"], "1"], ["1/0"], ["x"], [{"1": ["1/2", "1/3"]}], [{"1/2": ["1"]}],
       [{"1": ["1"], "1/2": ["1"]}], [{}], [{"1": []}], [{"2": ["1"]}], [{"1": ["2"]}], [{"1": ["-1", "1", "1"]}], ["1/2", {"1/3": ["1"]}],
       [["1/2", "1/2"], []], '["1/2", "1/3"]', '["1"', "[]", ["0"], ["0", "0"], [["1"], ["0"]], ["nan"], ["1", "nan"], ["inf"], [None, "1"],
       ["1/2", "1/2", "1/-2"], ["1/2", "3/2"], [[["1"]]], 2 ** 200, [{"1": ["3/2"]}], [{"3/2": ["1"]}]]


def malformed(ctx, rng, i):
    from keri.core.coring import Tholder, Bexter, Matter
    bad = BAD[i % len(BAD)]
    if i >= len(BAD):  # random unsatisfiable clause: total weight below one
        d = rng.randint(3, 40)
        n = rng.randint(1, d - 1)
        parts, left = [], n
        while left:
            k = rng.randint(1, left)
            parts.append(k)
            left -= k
        c = [f"{p}/{d}" for p in parts] + ["0"] * rng.randint(0, 2)
        rng.shuffle(c)
        bad = rng.choice([c, [["1"], c], [c, ["1", "1"]], [{"1": c}, "1"], ["1", {"1": c}], [["1"], ["1", {"1": c}]],
                          json.dumps([["1"], c])])
    try:
        t = Tholder(sith=bad)
    except Exception:
        ctx.saw("refused")
    else:
        raise Violation(f"malformed or unsatisfiable threshold {bad!r} accepted as {t.sith!r}")
    if i >= len(BAD) and isinstance(bad, list):  # the same through its text form
        def tx(w):
            f = fr(w)
            return f"{f.numerator}s{f.denominator}" if 0 < f < 1 else str(int(f))
        cs = bad if isinstance(bad[0], list) else [bad]
        bext = "a".join("c".join(f"{tx(list(e)[0])}k" + "v".join(tx(w) for w in list(e.values())[0]) if isinstance(e, dict) else tx(e)
                                 for e in c) for c in cs)
        limen = Bexter(bext=bext).qb64b
        try:
            t = Tholder(limen=limen)
        except Exception:
            ctx.saw("refused")
        else:
            raise Violation(f"unsatisfiable threshold text {bext!r} accepted as {t.sith!r}")
    for lim in (b"", b"BAAA", b"4AAA", Matter(raw=b"\0" * 32, code="E").qb64b):
        try:
            t = Tholder(limen=lim)
        except Exception:
            ctx.saw("refused")
        else:
            raise Violation(f"limen {lim!r} accepted as {t.sith!r}")
    ctx.case(("bad", repr(bad)))


CASES = [("judge", case, 3000, 60000), ("malformed", malformed, len(BAD) + 400, len(BAD) + 4000)]
