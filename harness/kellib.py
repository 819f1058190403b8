"""Key event logs: an independent controller, a validator under test, and an auditor of what it stored."""
import copy
import hashlib
from fractions import Fraction
import pysodium
import cesrlib as cl
import msggen as mg
import streamgen as sg
from vh import Violation, must, same

# ---------------------------------------------------------------- thresholds
def sat(thr, idx):
    """Does a set of distinct positions satisfy a threshold written as in an event?"""
    idx = set(idx)
    if isinstance(thr, str):
        return len(idx) >= max(int(thr, 16), 0) and (int(thr, 16) > 0 or True) and len(idx) >= int(thr, 16)
    groups = thr if thr and isinstance(thr[0], list) else [thr]
    p = 0
    for g in groups:
        tot = Fraction(0)
        for w in g:
            if isinstance(w, dict):
                (ow, inner), = w.items()
                if sum(Fraction(x) for j, x in enumerate(inner) if p + j in idx) >= 1:
                    tot += Fraction(ow)
                p += len(inner)
            else:
                if p in idx:
                    tot += Fraction(w)
                p += 1
        if tot < 1:
            return False
    return True


def thr(rng, n):
    """A threshold over n keys."""
    if n == 0:
        return "0"
    w = rng.random()
    if w < 0.6 or n == 1:
        return f"{rng.randint(1, n):x}" if rng.random() < 0.9 or n > 1 else ["1"]
    if w < 0.85:
        return rng.choice([["1/2"] * n, [f"1/{n}"] * n, ["1"] + ["1/2"] * (n - 1), ["1/2", "1/2"] + ["1/4"] * (n - 2) if n > 2 else ["1/2", "1/2"]])
    k = rng.randint(1, n - 1)
    return [[f"1/{k}"] * k if k > 1 else ["1"], [f"1/{n - k}"] * (n - k) if n - k > 1 else ["1"]]


# ---------------------------------------------------------------- keys and signatures
class Key:
    def __init__(self, rng, trans=True):
        self.seed = rng.randbytes(32)
        self.pk, self.sk = pysodium.crypto_sign_seed_keypair(self.seed)
        self.qb64 = cl.matter("D" if trans else "B", "", self.pk)[0].decode()

    def sign(self, raw):
        return pysodium.crypto_sign_detached(raw, self.sk)

    def digest(self, code="E"):
        return digest(self.qb64.encode(), code)


def digest(raw, code="E"):
    return cl.matter(code, "", mg.DIGS[code](raw))[0].decode()


def isig(code, index, ondex, sig):
    if index > 63 and code in "AB":
        code, ondex = ("2A", index) if code == "A" else ("2B", None)
    return cl.indexer(code, index, ondex, sig)[0].decode()


def csig(sig):
    return cl.matter("0B", "", sig)[0].decode()


def unsig(qb64):
    """(code, index, ondex or None, raw) of an indexed signature."""
    code, index, ondex, raw, n = cl.unindexer(qb64.encode() if isinstance(qb64, str) else qb64)
    return code, index, ondex, raw


def exposure(code, index, ondex):
    """Which prior next position an indexed signature speaks for, None if none."""
    if code in ("A", "C", "E"):
        return index
    if code in ("2A", "2C", "2E", "0A", "3A"):
        return ondex
    return None


def verifies(key, sig, raw):
    try:
        pysodium.crypto_sign_verify_detached(sig, raw, cl.unmatter(key.encode())[2] if False else rawkey(key))
        return True
    except Exception:
        return False


def rawkey(qb64):
    import base64
    return base64.urlsafe_b64decode("A" + qb64[1:])[1:]


# ---------------------------------------------------------------- events
class Ev:
    """One event: its bytes and everything needed to sign and judge it."""

    def __init__(self, ctl, sad, raw, keys, kt, wits, toad, prior=None, ndigs=(), nt="0", est=True):
        self.ctl, self.sad, self.raw, self.keys, self.kt, self.wits, self.toad = ctl, sad, raw, keys, kt, wits, toad
        self.prior, self.ndigs, self.nt, self.est = prior, list(ndigs), nt, est   # prior: prior establishment event
        self.said, self.sn, self.ilk, self.pre = sad["d"], int(sad["s"], 16), sad["t"], sad["i"]
        self.major = 2 if sad["v"].endswith(".") else 1

    def signatures(self, rng, which=None, plain=False):
        """Valid indexed signatures of the keys at positions which (default all)."""
        out = []
        for i in range(len(self.keys)) if which is None else which:
            k = self.keys[i]
            s = k.sign(self.raw)
            pos = [j for j, d in enumerate(self.prior.ndigs) if d == k.digest(d[0])] if self.prior else []
            if self.ilk in ("rot", "drt") and pos:
                j = pos[0]
                if j == i:
                    c = ("A", i, None) if plain or i > 63 or rng.random() < 0.7 else ("2A", i, i)
                else:
                    c = ("2A", i, j)
            elif self.ilk in ("rot", "drt"):
                c = ("B", i, None) if i < 64 and rng.random() < 0.7 else ("2B", i, None)
            else:
                c = rng.choice([("A", i, None), ("B", i, None), ("2A", i, i), ("2B", i, None)]) if not plain else ("A", i, None)
            out.append(isig(*c, s))
        return out

    def counts(self, sigs):
        """(positions of current keys, positions of prior next keys) the signatures really prove."""
        cur, exp = set(), set()
        for q in sigs:
            code, index, ondex, raw = unsig(q)
            if index < len(self.keys) and verifies(self.keys[index].qb64, raw, self.raw):
                cur.add(index)
                o = exposure(code, index, ondex)
                if self.prior is not None and o is not None and o < len(self.prior.ndigs):
                    d = self.prior.ndigs[o]
                    if self.keys[index].digest(d[0]) == d:
                        exp.add(o)
        return cur, exp

    def enough(self, sigs):
        cur, exp = self.counts(sigs)
        if not cur or not sat(self.kt, cur):
            return False
        return self.ilk not in ("rot", "drt") or sat(self.prior.nt, exp)

    def receipts(self, which=None):
        """Valid witness signatures, indexed form."""
        return [isig("B" if i < 64 else "2B", i, None, w.sign(self.raw)) for i, w in enumerate(self.wits) if which is None or i in which]

    def couple(self, w):
        return (w.qb64, csig(w.sign(self.raw)))


class Ctl:
    """A controller built from scratch."""

    def __init__(self, rng, major=None, kind=None, delegator=None, wits=None, nkeys=None, traits=None, basic=None, toad=None, transferable=True, empty=False, keys=None, nexts=None, over=None):
        self.rng = rng
        self.major = major or rng.choice([1, 1, 1, 2])
        self.kind = kind or rng.choice(["JSON", "JSON", "JSON", "CBOR", "MGPK"])
        self.delegator = delegator
        self.events, self.branch = [], []    # all made; current chain
        n = len(keys) if keys else nkeys or rng.choice([1, 1, 2, 3])
        basic = basic if basic is not None else (n == 1 and not delegator and rng.random() < 0.3)
        if basic:
            n = 1
        keys = keys or [Key(rng, transferable or not basic) for _ in range(n)]
        self.next = nexts or [Key(rng) for _ in range(0 if empty or not transferable else rng.choice([n, n, 1, 2]))]
        self.traits = traits if traits is not None else []
        if wits is None:
            wits = [Key(rng, False) for _ in range(rng.choice([0, 0, 1, 3]))]
        if not transferable:
            wits = []
        self.pool = wits + [Key(rng, False) for _ in range(2)]
        if toad is None:
            toad = rng.randint(1, len(wits)) if wits else 0
        kt, nt = thr(rng, n), thr(rng, len(self.next))
        if basic:
            kt = "1"
        ndigs = [k.digest(rng.choice("EEEFGHI")) for k in self.next]
        sad = dict(v=mg.vstring("KERI", self.major, self.kind, 0), t="dip" if delegator else "icp", d="", i=keys[0].qb64 if basic else "",
                   s="0", kt=kt, k=[k.qb64 for k in keys], nt=nt, n=ndigs, bt=f"{toad:x}", b=[w.qb64 for w in wits], c=list(self.traits),
                   a=[] if not transferable else self.anchors(None))
        sad.update(over or {})
        if delegator:
            sad["di"] = delegator.pre
        code = rng.choice("EEEEFGHI")
        sad, raw = mg.finish(sad, self.kind, {"d": code} if basic else {"d": code, "i": code})
        self.pre = sad["i"]
        self.push(Ev(self, sad, raw, keys, kt, wits, toad, None, ndigs, nt))
        self.last.next = list(self.next)

    def push(self, ev):
        self.events.append(ev)
        self.branch = [e for e in self.branch if e.sn < ev.sn] + [ev]

    @property
    def last(self):
        return self.branch[-1]

    @property
    def lastest(self):
        return [e for e in self.branch if e.est][-1]

    def make(self, sad, codes, **kwa):
        sad, raw = mg.finish(sad, self.kind, codes)
        return Ev(self, sad, raw, **kwa)

    def anchors(self, a):
        return a if a is not None else [dict(i=mg.prefix(self.rng), s=mg.hexs(self.rng), d=mg.digest(self.rng))] if self.rng.random() < 0.3 else []

    def ixn(self, a=None, at=None, push=True, **over):
        """Interaction; at: sequence number (default next)."""
        prior = self.last if at is None else [e for e in self.branch if e.sn == at - 1][0]
        est = [e for e in self.branch if e.est and e.sn <= prior.sn][-1]
        sad = dict(v=mg.vstring("KERI", self.major, self.kind, 0), t="ixn", d="", i=self.pre, s=f"{prior.sn + 1:x}", p=prior.said, a=self.anchors(a))
        sad.update(over)
        ev = self.make(sad, {"d": self.rng.choice("EEEFGHI")}, keys=est.keys, kt=est.kt, wits=est.wits, toad=est.toad, prior=None, est=False)
        if push:
            self.push(ev)
        return ev

    def rot(self, a=None, at=None, push=True, expose=None, reserve=0.3, rotwits=0.4, empty=False, keys=None, kt=None, nkt=None, toad=None, ilk=None, nexts=None, **over):
        """Rotation that satisfies the prior next commitment (unless keys are given)."""
        rng = self.rng
        prior = self.last if at is None else [e for e in self.branch if e.sn == at - 1][0]
        est = [e for e in self.branch if e.est and e.sn <= prior.sn][-1]
        nxt = est.next
        if keys is None:
            pos = list(range(len(nxt)))
            if expose is None and len(nxt) > 1 and rng.random() < reserve:
                while True:
                    pos = rng.sample(range(len(nxt)), rng.randint(1, len(nxt)))
                    if sat(est.nt, pos):
                        break
            elif expose is not None:
                pos = expose
            keys = [nxt[j] for j in pos]
            if rng.random() < 0.3:
                keys.insert(rng.randrange(len(keys) + 1), Key(rng))
            if rng.random() < 0.3:
                rng.shuffle(keys)
        if kt is None:
            kt = thr(rng, len(keys))
        nn = nexts or [Key(rng) for _ in range(0 if empty else rng.choice([1, 1, 2, 3]))]
        held = [k for k in nxt if k not in keys]
        if held and nn and not nexts and rng.random() < 0.5:
            nn[0] = held[0]
        nt = thr(rng, len(nn)) if nkt is None else nkt
        ndigs = [k.digest(rng.choice("EEEFGHI")) for k in nn]
        cuts, adds = [], []
        if rng.random() < rotwits:
            cuts = rng.sample(est.wits, rng.randint(0, len(est.wits)))
            adds = [Key(rng, False) for _ in range(rng.choice([0, 1, 2]))]
            unused = [w for w in self.pool if w not in est.wits]
            if unused and adds and rng.random() < 0.5:
                adds[0] = unused[0]
        wits = [w for w in est.wits if w not in cuts] + adds
        self.pool += adds
        if toad is None:
            toad = rng.randint(1, len(wits)) if wits else 0
        sad = dict(v=mg.vstring("KERI", self.major, self.kind, 0), t=ilk or ("drt" if self.delegator else "rot"), d="", i=self.pre,
                   s=f"{prior.sn + 1:x}", p=prior.said, kt=kt, k=[k.qb64 for k in keys], nt=nt, n=ndigs, bt=f"{toad:x}",
                   br=[w.qb64 for w in cuts], ba=[w.qb64 for w in adds])
        if self.major == 2:
            sad["c"] = []
        sad["a"] = self.anchors(a)
        sad.update(over)
        ev = self.make(sad, {"d": rng.choice("EEEFGHI")}, keys=keys, kt=kt, wits=wits, toad=toad, prior=est, ndigs=ndigs, nt=nt)
        ev.next = nn
        if push:
            self.push(ev)
        return ev

    def approve(self, ev, est=False, extra=()):
        """Event of this controller that seals the given events."""
        seals = [dict(i=e.pre, s=f"{e.sn:x}", d=e.said) for e in ([ev] if isinstance(ev, Ev) else ev)]
        seals = list(extra) + seals
        return self.rot(a=seals) if est else self.ixn(a=seals)


def rct(rng, ev, major=None, kind=None, said=None, pre=None, sn=None):
    """Receipt message body."""
    major = major or ev.major
    kind = kind or rng.choice(["JSON", "CBOR", "MGPK"])
    sad = dict(v=mg.vstring("KERI", major, kind, 0), t="rct", d=said or ev.said, i=pre or ev.pre, s=f"{ev.sn if sn is None else sn:x}")
    return mg.finish(sad, kind, {})[1]


def message(rng, raw, major=1, sigs=(), wigs=(), couples=(), source=None, groups=(), tsgs=(), lsg=None, fs=None, gm=None, enclose=True):
    """Message bytes with attachments.  source: (sn, said) seal source; groups: (pre, sn, said, [sigs]) receipt groups;
    tsgs: the same as signature groups; lsg: (pre, [sigs]); returns (bytes, CESR major version)."""
    gm = gm or (2 if major == 2 else rng.choice([1, 1, 2]))
    g = sg.Gen(rng, gm)
    v1 = gm == 1

    def num(n):
        return sg.mat("0A", n.to_bytes(16, "big")) if v1 or rng.random() < 0.5 else sg.mat("M", n.to_bytes(2, "big")) if n < 65536 else sg.mat("0A", n.to_bytes(16, "big"))

    def put(kind, els, body=None):
        body = "".join(els) if body is None else body
        count = len(els) if v1 and kind != "rsgs" else len(body) // 4
        return g.head(kind, count) + body
    parts = []
    if sigs:
        parts.append(put("sigers", list(sigs)))
    if wigs:
        parts.append(put("wigers", list(wigs)))
    if couples:
        parts.append(put("cigars", [k + s for k, s in couples]))
    if groups:
        parts.append(put("rsgs", [p + num(n) + d + g.nest("sigers", s) for p, n, d, s in groups]))
    if tsgs:
        parts.append(put("tsgs", [p + num(n) + d + g.nest("sigers", s) for p, n, d, s in tsgs]))
    if lsg:
        parts.append(put("lsgs", [lsg[0] + g.nest("sigers", lsg[1])]))
    if source:
        parts.append(put("sscs", [num(source[0]) + source[1]]))
    if fs:
        parts.append(put("frcs", [num(fs[0]) + fs[1]]))
    if not (sigs or wigs or couples or groups or tsgs or lsg) or enclose or rng.random() < 0.5:
        t = g.enclose("att", "".join(parts))
    else:
        t = "".join(parts)
    return raw + t.encode(), gm


# ---------------------------------------------------------------- validator under test
class Validator:
    _n = 0

    def __init__(self, lax=False, local=False, cloned=False, direct=True, temp=True, name=None, path=None):
        from keri.db.basing import Baser
        from keri.core.eventing import Kevery
        Validator._n += 1
        self.db = Baser(name=name or f"v{Validator._n}", temp=temp, reopen=True, **({"headDirPath": path} if path else {}))
        self.kvy = Kevery(db=self.db, lax=lax, local=local, cloned=cloned, direct=direct)
        self.errors = []

    def feed(self, data, gm=1, local=None, **kwa):
        from keri.core.parsing import Parser
        from keri.kering import Vrsn_1_0, Vrsn_2_0
        Parser(version=Vrsn_1_0 if gm == 1 else Vrsn_2_0).parse(ims=bytearray(data), kvy=self.kvy,
                                                                         local=self.kvy.local if local is None else local, **kwa)

    def settle(self, rounds=12):
        """Process escrows until nothing changes."""
        before = None
        for _ in range(rounds):
            now = self.digest()
            if now == before:
                return
            before = now
            self.kvy.processEscrows()

    def digest(self):
        return tuple((p, k.sn, k.serder.said) for p, k in self.kvy.kevers.items()), tuple(d.cntAll() for d in (
            self.db.ooes, self.db.pses, self.db.pwes, self.db.pdes, self.db.sigs, self.db.wigs, self.db.rcts, self.db.vrcs, self.db.ures,
            self.db.vres, self.db.uwes, self.db.fels))

    def sn(self, pre):
        k = self.kvy.kevers.get(pre) if hasattr(self.kvy.kevers, "get") else None
        return k.sn if k is not None else -1

    def head(self, pre):
        return self.kvy.kevers[pre].serder.said if pre in self.kvy.kevers else None

    def close(self):
        self.db.close(clear=True)


# ---------------------------------------------------------------- auditor
def decode(raw, kind):
    import json
    import cbor2
    import msgpack
    return json.loads(raw) if kind == "JSON" else cbor2.loads(raw) if kind == "CBOR" else msgpack.loads(raw)


def bodyof(serder):
    """Structure of stored event bytes, read independently when the kind is self describing."""
    raw = bytes(serder.raw)
    kind = "JSON" if raw[:1] == b"{" else "CBOR" if 0xa0 <= raw[0] <= 0xbb else "MGPK" if raw[0] & 0xf0 == 0x80 or raw[0] in (0xde, 0xdf) else None
    return (decode(raw, kind), kind, raw) if kind else (copy.deepcopy(serder.sad), None, raw)


def selfsaid(sad, kind, raw):
    """Identifiers recomputed from the content."""
    if kind is None:
        return
    d = sad["d"]
    code = d[0] if d[0] not in "0" else d[:2]
    labels = ["d"] + (["i"] if sad["t"] in ("icp", "dip") and sad["i"] == d else [])
    blank = {l: "#" * len(d) for l in labels}
    same(cl.matter(code, "", mg.DIGS[code](mg.SER[kind]({**sad, **blank})))[0].decode(), d, "identifier of stored event")


def audit(ctx, db, owner=(), kevers=None, stored=True):
    """Everything the database holds as accepted must be a verifiable history."""
    kels = {}
    for keys, on, dig in db.kels.getAllItemIter():
        pre = keys[0] if isinstance(keys, (tuple, list)) else keys
        kels.setdefault(pre, {}).setdefault(on, []).append(dig)
    fels = {}
    for keys, on, dig in db.fels.getAllItemIter():
        fels.setdefault(keys[0] if isinstance(keys, (tuple, list)) else keys, []).append((on, dig))
    kevers = kevers if kevers is not None else db.kevers
    bodies = {}

    def body(pre, dig):
        if (pre, dig) not in bodies:
            s = db.evts.get(keys=(pre, dig))
            must(s is not None, "event %s of log of %s is not stored", dig, pre)
            b = bodyof(s)
            selfsaid(*b)
            same((b[0]["i"], b[0]["d"]), (pre, dig), "event stored under another key")
            bodies[pre, dig] = b
        return bodies[pre, dig]
    for pre, log in kels.items():
        same(sorted(log), list(range(len(log))), "sequence numbers of log of %s", pre)
        last = None
        states = {}
        order = [d for _, d in fels.get(pre, [])]
        same([n for n, _ in fels.get(pre, [])], list(range(len(order))), "ordinals of first seen log of %s", pre)
        same(sorted(order), sorted(d for ds in log.values() for d in ds), "first seen log against event log of %s", pre)
        for on in sorted(log):
            must(len(set(log[on])) == len(log[on]), "event repeated at %d of %s", on, pre)
            for dig in log[on]:
                e, kind, raw = body(pre, dig)
                same(int(e["s"], 16), on, "sequence number in event")
                st = {}
                prev = None
                if on == 0:
                    must(e["t"] in ("icp", "dip"), "first event is %s", e["t"])
                    must(e["i"] == e["d"] or e["k"] == [e["i"]], "identifier %s does not derive from its inception", pre)
                    st = dict(keys=e["k"], kt=e["kt"], n=e["n"], nt=e["nt"], wits=e["b"], toad=int(e["bt"], 16), traits=e["c"], est=(on, dig),
                              delpre=e.get("di"), br=[], ba=[])
                else:
                    must(e["p"] in log[on - 1], "event %d of %s does not follow an accepted event", on, pre)
                    prev = states[e["p"]]
                    must(e["t"] in ("rot", "drt", "ixn"), "event %d is %s", on, e["t"])
                    must(prev["n"] or False, "event %d of %s after the identifier was abandoned", on, pre)
                    st = dict(prev)
                    if e["t"] == "ixn":
                        must("EO" not in prev["traits"], "interaction in establishment only log of %s", pre)
                    else:
                        must((e["t"] == "drt") == bool(prev["delpre"]), "%s of %s whose delegator is %s", e["t"], pre, prev["delpre"])
                        w = [x for x in prev["wits"] if x not in e["br"]] + e["ba"]
                        must(set(e["br"]) <= set(prev["wits"]) and len(set(w)) == len(w) and not set(e["ba"]) & set(prev["wits"]),
                             "witness cuts and adds of %s at %d", pre, on)
                        st.update(keys=e["k"], kt=e["kt"], n=e["n"], nt=e["nt"], wits=w, toad=int(e["bt"], 16), est=(on, dig), br=e["br"], ba=e["ba"])
                states[dig] = st
                sigs = [s.qb64 for s in db.sigs.get(keys=(pre, dig))]
                cur, exp = set(), set()
                for q in sigs:
                    code, index, ondex, sraw = unsig(q)
                    if index < len(st["keys"]) and verifies(st["keys"][index], sraw, raw):
                        cur.add(index)
                        o = exposure(code, index, ondex)
                        if prev and o is not None and o < len(prev["n"]) and digest(st["keys"][index].encode(), prev["n"][o][0]) == prev["n"][o]:
                            exp.add(o)
                    elif stored:
                        raise Violation(f"stored signature of event {on} of {pre} does not verify")
                must(cur and sat(st["kt"], cur), "event %d of %s accepted with signatures at %s for threshold %s", on, pre, sorted(cur), st["kt"])
                if e["t"] in ("rot", "drt"):
                    must(sat(prev["nt"], exp), "rotation %d of %s accepted exposing %s for %s", on, pre, sorted(exp), prev["nt"])
                good = set()
                for s in db.wigs.get(keys=(pre, dig)):
                    code, index, ondex, sraw = unsig(s.qb64)
                    if index < len(st["wits"]) and verifies(st["wits"][index], sraw, raw):
                        good.add(index)
                    elif stored:
                        raise Violation(f"stored witness receipt of event {on} of {pre} does not verify")
                if pre not in owner and not set(owner) & set(st["wits"]):
                    must(len(good) >= st["toad"], "event %d of %s accepted with %d witness receipts of %d", on, pre, len(good), st["toad"])
                for v, c in db.rcts.get(keys=(pre, dig)):
                    must(verifies(v.qb64, c.raw, raw) and v.qb64[0] == "B", "stored receipt of event %d of %s does not verify", on, pre)
                    ctx.saw("audited_receipts")
                if st["delpre"] and e["t"] in ("dip", "drt") and pre not in owner and not set(owner) & set(st["wits"]):
                    found = False
                    for ds in kels.get(st["delpre"], {}).values():
                        for dd in ds:
                            found |= any(x == dict(i=pre, s=e["s"], d=dig) for x in body(st["delpre"], dd)[0]["a"] if isinstance(x, dict))
                    must(found, "delegated event %d of %s accepted without a seal of %s", on, pre, st["delpre"])
                    ctx.saw("audited_delegations")
                f = db.fons.get(keys=(pre, dig))
                must(f is not None and order[f.num] == dig, "first seen ordinal of event %d of %s", on, pre)
                ctx.saw("audited_events")
        # the event in force is the last first seen one; what it follows must be the last at each number below
        top = d = order[-1]
        for on in range(int(body(pre, top)[0]["s"], 16), 0, -1):
            same(d, log[on][-1], "event in force at %d of %s", on, pre)
            d = body(pre, d)[0]["p"]
        same(d, log[0][-1], "inception in force of %s", pre)
        must(pre in kevers, "no key state for log of %s", pre)
        k = kevers[pre]
        st = states[top]
        want = dict(sn=int(body(pre, top)[0]["s"], 16), said=top, ilk=body(pre, top)[0]["t"], keys=st["keys"], kt=st["kt"], ndigs=st["n"], nt=st["nt"], wits=st["wits"], toad=st["toad"],
                    est=st["est"], delpre=st["delpre"], eo="EO" in st["traits"], dnd="DND" in st["traits"], fn=db.fons.get(keys=(pre, top)).num)
        got = dict(sn=k.sn, said=k.serder.said, ilk=k.ilk, keys=[v.qb64 for v in k.verfers], kt=k.tholder.sith, ndigs=[x.qb64 for x in k.ndigers],
                   nt=k.ntholder.sith, wits=list(k.wits), toad=k.toader.num, est=(k.lastEst.s, k.lastEst.d), delpre=k.delpre or None,
                   eo=k.estOnly, dnd=k.doNotDelegate, fn=k.fn)
        same(got, want, "key state of %s", pre)
        rec = db.states.get(keys=pre)
        must(rec is not None, "no key state record of %s", pre)
        same((rec.i, int(rec.s, 16), rec.d, rec.k, rec.kt, rec.n, rec.nt, rec.b, int(rec.bt, 16), int(rec.ee.s, 16), rec.ee.d, rec.et),
             (pre, want["sn"], top, st["keys"], st["kt"], st["n"], st["nt"], st["wits"], st["toad"], st["est"][0], st["est"][1], want["ilk"]),
             "key state record of %s", pre)
        ctx.saw("audited_states")
    for pre, k in list(kevers.items()) if hasattr(kevers, "items") else []:
        must(pre in kels, "key state of %s without log", pre)
    for keys, siger in db.vrcs.getTopItemIter():
        pre, dig, rpre, rsn, rdig = keys
        must(any(dig in ds for ds in kels.get(pre, {}).values()), "receipt of event %s of %s which is not accepted", dig, pre)
        must(rdig in kels.get(rpre, {}).get(int(rsn, 16), ()), "receipt by %s under event %s it does not have", rpre, rdig)
        r = body(rpre, rdig)[0]
        must("k" in r, "receipt by %s under an event without keys", rpre)
        code, index, ondex, sraw = unsig(siger.qb64)
        must(index < len(r["k"]) and verifies(r["k"][index], sraw, body(pre, dig)[2]), "stored receipt by %s of event %s of %s does not verify", rpre, dig, pre)
        ctx.saw("audited_transferable_receipts")
    return kels


def records(db):
    """What a database records about identifiers, without what depends on the order of arrival."""
    out = {}
    for keys, on, dig in db.kels.getAllItemIter():
        out.setdefault(("kel", keys[0], on), []).append(dig)
    for keys, on, dig in db.fels.getAllItemIter():
        out.setdefault(("fel", keys[0]), set()).add(dig)
    for name in ("sigs", "wigs", "wits"):
        for keys, val in getattr(db, name).getTopItemIter():
            out.setdefault((name,) + tuple(keys), set()).add(val.qb64)
    out = {k: sorted(v) if k[0] == "wits" else v for k, v in out.items()}
    for keys, (v, c) in db.rcts.getTopItemIter():
        out.setdefault(("rcts",) + tuple(keys), set()).add((v.qb64, c.qb64))
    for keys, siger in db.vrcs.getTopItemIter():
        out.setdefault(("vrcs",) + tuple(keys), set()).add(siger.qb64)
    for pre in {keys[0] for keys, _ in db.states.getTopItemIter()} | set(db.kevers):
        k = db.kevers[pre]
        out["state", pre] = (k.sn, k.serder.said, k.ilk, tuple(v.qb64 for v in k.verfers), str(k.tholder.sith), tuple(d.qb64 for d in k.ndigers), str(k.ntholder.sith),
                             tuple(k.wits), tuple(k.cuts), tuple(k.adds), k.toader.num, k.lastEst.s, k.lastEst.d, k.delpre or None, k.estOnly, k.doNotDelegate)
    for keys, rec in db.states.getTopItemIter():
        d = rec._asdict() if hasattr(rec, "_asdict") else dict(rec.__dict__)
        d.pop("dt", None)
        d.pop("f", None)
        out[("states",) + tuple(keys)] = repr(d)
    return out


def waiting(db):
    """Escrow entries."""
    return {n: getattr(db, n).cntAll() for n in ("ooes", "pses", "pwes", "pdes", "uwes", "ures", "vres", "misfits", "delegables")
            if hasattr(getattr(db, n), "cntAll") and getattr(db, n).cntAll()}


def differ(a, b):
    """First differences of two records."""
    return [(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b), key=repr) if a.get(k) != b.get(k)][:3]


# ---------------------------------------------------------------- stories
class Delivery:
    """One message with what it really proves: eff = [(event, 'sig'|'wit', item, pure)]."""

    def __init__(self, data, gm, eff, what):
        self.data, self.gm, self.eff, self.what = data, gm, eff, what


def split(rng, items, most=3):
    """Cut items into overlapping non-empty groups that cover them."""
    items = list(items)
    if not items:
        return []
    rng.shuffle(items)
    n = rng.randint(1, min(most, len(items)))
    cuts = [items[i::n] for i in range(n)]
    for c in cuts:
        if rng.random() < 0.3:
            c.append(rng.choice(items))
    return cuts


def badsigs(rng, ev, other=None):
    """Indexed signatures that prove nothing for ev (or only look as if they did)."""
    n = len(ev.keys)
    i = rng.randrange(n)
    k = ev.keys[i]
    w = rng.random()
    code = rng.choice(["A", "B", "2A", "2B"])
    on = i if code in ("A", "2A") else None
    good = k.sign(ev.raw)
    if w < 0.2:
        return isig(code, i, on, Key(rng).sign(ev.raw))                  # foreign key
    if w < 0.4:
        b = bytearray(good)
        b[rng.randrange(64)] ^= 1 << rng.randrange(8)
        return isig(code, i, on, bytes(b))                               # altered
    if w < 0.55:
        return isig(code, i, on, k.sign(other.raw if other else ev.raw + b" "))   # of something else
    if w < 0.7 and n > 1:
        return isig(code, (i + 1) % n, on if on is None or code == "2A" else (i + 1) % n, good)   # at another key's place
    if w < 0.85:
        return isig(code, n, on if on is None or code == "2A" else n, good)       # beyond the keys
    if ev.prior is not None and ev.prior.keys:
        p = rng.choice(ev.prior.keys)
        return isig(code, i, on, p.sign(ev.raw)) if p is not k else isig(code, n + 3, on if code != "A" else n + 3, good)
    return isig(code, i, on, Key(rng).sign(ev.raw))


class Story:
    """Deliveries about a set of controllers, the validator that gets them, and bounds on what it may and must accept."""

    def __init__(self, ctx, rng, ctls, val):
        self.ctx, self.rng, self.ctls, self.val = ctx, rng, ctls, val
        self.lo, self.hi = {}, {}            # (said, kind) -> items
        self.chain = {c.pre: list(c.branch) for c in ctls}
        self.prevs = {}

    # ---- making deliveries
    def event(self, ev, sigs, wits=(), couples=(), pure=True, source="auto", **kwa):
        """Event message with indexed signatures sigs, witness positions wits (indexed) and couples of positions."""
        rng = self.rng
        if source == "auto":
            source = self.source(ev) if rng.random() < 0.6 else None
        wigs = [w if isinstance(w, str) else ev.receipts([w])[0] for w in wits]
        cps = [c if isinstance(c, tuple) else ev.couple(ev.wits[c]) for c in couples]
        data, gm = message(rng, ev.raw, ev.major, sigs=sigs, wigs=wigs, couples=cps, source=source, **kwa)
        eff = [(ev, "sig", s, pure) for s in sigs]
        eff += [(ev, "wit", w, pure) for w in wits if isinstance(w, int)]
        eff += [(ev, "wit", w, False) for w in couples if isinstance(w, int)]
        return Delivery(data, gm, eff, f"{ev.ilk} {ev.sn} of {ev.pre[:6]} sigs={len(sigs)} wits={len(wits)} couples={len(couples)} pure={pure}")

    def source(self, ev):
        c = ev.ctl.delegator
        if c is None:
            return None
        for e in c.events:
            if any(isinstance(a, dict) and a.get("d") == ev.said for a in e.sad["a"]):
                return (e.sn, e.said)
        return None

    def receipt(self, ev, wigs=(), couples=(), pure=True, **kwa):
        rng = self.rng
        w = [x if isinstance(x, str) else ev.receipts([x])[0] for x in wigs]
        c = [x if isinstance(x, tuple) else ev.couple(ev.wits[x]) for x in couples]
        data, gm = message(rng, rct(rng, ev), ev.major, wigs=w, couples=c, **kwa)
        eff = [(ev, "wit", x, pure) for x in list(wigs) + list(couples) if isinstance(x, int)]
        return Delivery(data, gm, eff, f"rct of {ev.ilk} {ev.sn} of {ev.pre[:6]} wigs={len(wigs)} couples={len(couples)} pure={pure}")

    def chit(self, ev, who, est=None, which=None, pure=True):
        """Receipt of ev by a transferable identifier under its establishment event est."""
        rng = self.rng
        est = est or rng.choice([e for e in who.branch if e.est])
        pos = which if which is not None else rng.sample(range(len(est.keys)), rng.randint(1, len(est.keys)))
        sigs = [isig(rng.choice("AB"), j, None, est.keys[j].sign(ev.raw)) for j in pos]
        group = [(est.pre, est.sn, est.said, sigs)]
        data, gm = message(rng, rct(rng, ev), ev.major, **({"groups": group} if rng.random() < 0.5 else {"tsgs": group}))
        d = Delivery(data, gm, [], f"rct of {ev.ilk} {ev.sn} of {ev.pre[:6]} by {who.pre[:6]} at {est.sn}")
        d.chits = {(ev.pre, ev.said, est.pre, est.sn, est.said, q) for q in sigs}
        return d

    def plan(self, ev, sigs=None, wits=None, hostile=0.4, whole=False):
        """Deliveries of a valid event: its signatures (positions sigs) and witness positions wits spread over messages."""
        rng = self.rng
        out = []
        pos = list(range(len(ev.keys))) if sigs is None else list(sigs)
        wp = list(range(len(ev.wits))) if wits is None else list(wits)
        parts = [pos] if whole else split(rng, pos)
        channel = {w: rng.choice(["attached", "rct-wig", "rct-couple"]) for w in wp}
        att = [w for w in wp if channel[w] == "attached"] if parts else []
        for k, part in enumerate(parts):
            s = ev.signatures(rng, part)
            if rng.random() < 0.15:
                s += ev.signatures(rng, part[:1])                        # the same position again, maybe in another form
            a = [w for j, w in enumerate(att) if whole or j % len(parts) == k]
            out.append(self.event(ev, s, a))
        for ch in ("rct-wig", "rct-couple"):
            ws = [w for w in wp if channel[w] == ch]
            for part in ([ws] if whole and ws else split(rng, ws)):
                if rng.random() < 0.2:
                    part = part + part[:1]
                out.append(self.receipt(ev, wigs=part) if ch == "rct-wig" else self.receipt(ev, couples=part))
        while rng.random() < hostile:
            out.append(self.bad(ev))
        return out

    def bad(self, ev):
        """A message about ev that proves less than it seems to."""
        rng = self.rng
        others = [e for e in self.chain.get(ev.pre, ev.ctl.branch) if e is not ev]
        other = rng.choice(others) if others else None
        w = rng.random()
        if w < 0.5 or not ev.wits:
            s = [badsigs(rng, ev, other) for _ in range(rng.randint(1, 3))]
            if rng.random() < 0.5:
                s.insert(rng.randrange(len(s) + 1), ev.signatures(rng, [rng.randrange(len(ev.keys))])[0])
            return self.event(ev, s, pure=False)
        n = len(ev.wits)
        i = rng.randrange(n)
        good = ev.wits[i].sign(ev.raw)
        b = bytearray(good)
        b[rng.randrange(64)] ^= 1 << rng.randrange(8)
        k = Key(rng, False)
        wig = [isig("B", i, None, k.sign(ev.raw)), isig("B", i, None, bytes(b)), isig("B", (i + 1) % n, None, good) if n > 1 else isig("B", n, None, good),
               isig("B", n, None, good), isig("B", i, None, ev.wits[i].sign(ev.raw + b" "))]
        cut = [x for e in others for x in e.wits if x not in ev.wits]
        cpl = [(k.qb64, csig(k.sign(ev.raw))), (ev.wits[i].qb64, csig(bytes(b))), (ev.wits[i].qb64, csig(ev.wits[i].sign(ev.raw + b" ")))]
        cpl += [(cut[0].qb64, csig(cut[0].sign(ev.raw)))] if cut else []
        if rng.random() < 0.4:
            return self.event(ev, ev.signatures(rng, [rng.randrange(len(ev.keys))]), wits=[rng.choice(wig)], pure=False)
        if rng.random() < 0.5:
            return self.receipt(ev, wigs=rng.sample(wig, 2), pure=False)
        return self.receipt(ev, couples=rng.sample(cpl, 2), pure=False)

    # ---- running
    def deliver(self, d):
        self.ctx.log(d.what)
        self.ctx.saw("deliveries")
        for ev, kind, item, pure in d.eff:
            self.hi.setdefault((ev.said, kind), set()).add(item)
            if pure:
                self.lo.setdefault((ev.said, kind), set()).add(item)
        self.val.feed(d.data, d.gm)

    def accepted(self, mat):
        """Events acceptable from material mat, over single unconflicted chains."""
        ok = set()
        while True:
            n = len(ok)
            for pre, chain in self.chain.items():
                for k, ev in enumerate(chain):
                    if ev.said in ok:
                        continue
                    if k and chain[k - 1].said not in ok:
                        break
                    if not ev.enough(mat.get((ev.said, "sig"), ())):
                        break
                    if len(mat.get((ev.said, "wit"), ())) < ev.toad:
                        break
                    dg = ev.ctl.delegator
                    if dg is not None and ev.est and ("DND" in dg.traits or not any(
                            e.said in ok and any(isinstance(a, dict) and list(a) == ["i", "s", "d"] and a["d"] == ev.said and a["i"] == ev.pre and int(a["s"], 16) == ev.sn
                                                 for a in e.sad["a"]) for e in self.chain.get(dg.pre, ()))):
                        break
                    ok.add(ev.said)
            if len(ok) == n:
                return ok

    def head(self, pre):
        return self.val.head(pre)

    def judge(self, settled):
        """Compare what the validator accepted with the bounds."""
        hi = self.accepted(self.hi)
        lo = self.accepted(self.lo) if settled else ()
        for pre, chain in self.chain.items():
            head = self.val.head(pre)
            got = -1
            if head is not None:
                got = [k for k, e in enumerate(chain) if e.said == head]
                must(got, "%s stands at an event that its controller never made", pre)
                got = got[0]
            top = max([k for k, e in enumerate(chain) if e.said in hi], default=-1)
            low = max([k for k, e in enumerate(chain) if e.said in lo], default=-1)
            must(got <= top, "%s stands at %d although only events up to %d were sufficiently signed, witnessed and approved", pre, got, top)
            must(got >= low, "%s stands at %d although events up to %d were sufficiently signed, witnessed and approved", pre, got, low)
            must(got >= self.prevs.get(pre, -1), "key state of %s went back", pre)
            self.prevs[pre] = got
            self.ctx.saw("settled_states" if settled else "intermediate_states")
            if settled and low < len(chain) - 1:
                self.ctx.saw("held_back")
            if settled and low == len(chain) - 1:
                self.ctx.saw("complete")
