"""H01: see catalog.py."""
import os
import tempfile

import vboot
import pysodium
import kellib as kl
from vh import must, same

RULE = ("each case drives one key manager over a stored keeper through a random history of creation (both algorithms, own or shared salt, stems, several keys and codes), rotation, "
        "ingestion and replay, renaming, signing, decryption, setting, changing and removing the encryption key, closing and reopening with right, wrong and missing seeds and wrong arguments, "
        "next to a twin manager given the same salt; non-trivial if at least two rotations and a restart happened")
REQUIRE = ["incepts", "salty", "randy", "rotations", "derived", "twins", "signed", "erased_refused", "kept_signs", "moves", "ingests", "replays", "replay_ends", "encrypted_scans", "aeid_set", "aeid_changed",
           "aeid_removed", "wrong_seed", "missing_seed", "wrong_update", "restarts", "reopened", "badargs", "decrypted", "duplicates_refused", "stretched", "distinct", "nontransferable", "curves"]
ASSUME = ["libsodium's primitives behave as their stand-ins (Argon2id, sealed boxes and Ed25519 are computed for real)"]
TIERS = {"low": (2, 67108864), "med": (3, 268435456), "high": (4, 1073741824)}
CURVES = ["Ed25519_Seed", "ECDSA_256r1_Seed", "ECDSA_256k1_Seed"]


def b64raw(salt):
    from keri.core import coring
    return coring.Matter(qb64=salt).raw


def derive(salt, path, tier, temp, code, transferable):
    """Public key and secret that salt and path determine."""
    from keri.core import signing
    ops, mem = (1, 8192) if temp else TIERS[tier]
    raw = pysodium.crypto_pwhash(outlen=32, passwd=path, salt=b64raw(salt), opslimit=ops, memlimit=mem, alg=pysodium.crypto_pwhash_ALG_ARGON2ID13)
    s = signing.Signer(raw=raw, code=code, transferable=transferable)
    if code == "A":
        same(s.verfer.raw, pysodium.crypto_sign_seed_keypair(raw)[0], "public key of a seed")
    return s.verfer.qb64, s.qb64


class Pre:
    """What one managed prefix should be."""

    def __init__(self, pre, **kw):
        self.pre = pre
        self.__dict__.update(kw)
        self.digests = []            # of the next keys
        self.dead = False
        self.pend = []               # ingested lots not yet replayed
        self.ended = True            # nothing left to replay


class Run:
    def __init__(self, ctx, rng, i, dir=None, salt=None):
        from keri.app import keeping
        from keri.core import signing
        self.ctx, self.rng = ctx, rng
        self.keeping = keeping
        self.tmp = tempfile.TemporaryDirectory(prefix="vh01")
        os.makedirs(os.path.join(self.tmp.name, "head"))
        self.salt = salt or signing.Salter(raw=rng.randbytes(16)).qb64
        self.ks = keeping.Keeper(name=f"k{i}", headDirPath=os.path.join(self.tmp.name, "head"), reopen=True, temp=False)
        self.seed = None
        self.aeid = ""
        self.pres = []
        self.issued = {}             # public key -> where from
        self.secrets = set()         # qb64 secrets and salts that may be stored
        self.live = {}               # public key -> signs now
        self.paths = {}              # derivation -> public key
        self.secrets.add(self.salt)
        self.nrot = self.nres = 0

    def close(self):
        self.ks.close(clear=True)
        self.tmp.cleanup()

    def seedpair(self):
        from keri.core import signing
        s = signing.Signer(raw=self.rng.randbytes(32), transferable=False)
        return s.verfer.qb64, s.qb64

    def open(self, seed=None, aeid=None, **kw):
        self.m = self.keeping.Manager(ks=self.ks, seed=seed, aeid=aeid, **kw)

    # ---------------------------------------------------------- monitors
    def stored(self):
        out = []
        for name, sub in sorted(vars(self.ks).items()):
            if hasattr(sub, "sdb"):
                for k, v in self.ks.getTopItemIter(sub.sdb, b""):
                    out.append((name, bytes(k), bytes(v)))
        return out

    def scan(self):
        """Nothing secret in clear while an encryption key is set."""
        if not self.aeid:
            return
        data = self.stored()
        must(len(data) > 3, "nothing stored")
        blob = b"\0".join(k + b"\1" + v for _, k, v in data)
        for q in sorted(self.secrets | ({self.seed} if self.seed else set())):
            raw = b64raw(q)
            for form, what in ((q.encode(), "text"), (q[2:].encode(), "text"), (raw, "raw"), (raw.hex().encode(), "hexadecimal")):
                if form in blob:
                    where = [(n, k) for n, k, v in data if form in v or form in k]
                    must(False, "secret %s is stored in clear (%s) in %r although an encryption key is set", q[:6], what, where[:2])
        self.ctx.saw("encrypted_scans")

    def secret(self, pub):
        """The stored secret of a public key, which the harness watches for."""
        s = self.m.ks.pris.get(pub, decrypter=self.m.decrypter)
        must(s is not None, "no secret is stored for key %s just issued", pub)
        same(s.verfer.qb64, pub, "stored secret belongs to another key")
        self.secrets.add(s.qb64)

    def issue(self, pub, where, derivation=None):
        if pub in self.issued:
            text = f"key {pub} issued twice: {self.issued[pub]} and {where}"
            if derivation is not None and self.paths.get(derivation) == pub:
                self.ctx.known("path-collision", text)
                return
            must(False, "%s", text)
        self.issued[pub] = where
        if derivation is not None:
            self.paths[derivation] = pub
        self.ctx.saw("distinct")

    def signs(self, pub, yes=True):
        from keri import kering
        ser = self.rng.randbytes(self.rng.choice([0, 1, 40, 500]))
        if not yes:
            try:
                self.m.sign(ser=ser, pubs=[pub])
            except ValueError:
                self.ctx.saw("erased_refused")
                return
            must(False, "erased key %s still signs", pub)
        sigs = self.m.sign(ser=ser, pubs=[pub], indexed=False)
        same(len(sigs), 1, "signatures of one key")
        self.verify(sigs[0], ser, pub)

    def verify(self, sig, ser, pub):
        from keri.core import coring
        v = coring.Verfer(qb64=pub)
        same(sig.verfer.qb64, pub, "key of a signature")
        if v.code in ("B", "D"):
            try:
                pysodium.crypto_sign_verify_detached(sig.raw, ser, v.raw)
            except Exception:
                must(False, "signature by %s does not verify", pub)
        else:
            must(v.verify(sig.raw, ser), "signature by %s does not verify", pub)
        must(not v.verify(sig.raw, ser + b"x"), "signature verifies over other data")
        self.ctx.saw("signed")

    def health(self):
        """Every key that should sign does; erased ones do not."""
        for p in self.pres:
            for pub in p.cur:
                self.signs(pub)
        keys = sorted(self.live)
        for pub in self.rng.sample(keys, min(4, len(keys))):
            self.signs(pub, self.live[pub])
        self.scan()

    def same_state(self, act, errors, what):
        before = self.stored()
        try:
            act()
        except errors:
            pass
        else:
            must(False, "%s is accepted", what)
        after = self.stored()
        must(before == after, "%s is refused but alters the keystore: %r", what, [x for x in after if x not in before][:2])

    # ------------------------------------------------------------- actions
    def digest(self, pub):
        from keri.core import coring
        return coring.Diger(ser=pub.encode(), code="E").qb64

    def codes(self, n, curves):
        from keri.core import coring
        return [getattr(coring.MtrDex, self.rng.choice(CURVES) if curves else "Ed25519_Seed") for _ in range(n)]

    def params(self):
        """Random arguments for incept."""
        rng = self.rng
        from keri.core import signing
        algo = rng.choice(["salty", "salty", "randy"])
        curves = not self.aeid and self.curvy and rng.random() < 0.3
        n, nn = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3, 0])
        kw = dict(algo=algo, temp=True, transferable=rng.random() < 0.85)
        if curves:
            self.ctx.saw("curves")
        if rng.random() < 0.5 or curves:
            kw["icodes"] = self.codes(n, curves)
            if nn:
                kw["ncodes"] = self.codes(nn, curves)
            else:
                kw["ncount"] = 0
        else:
            kw.update(icount=n, ncount=nn)
        if algo == "salty":
            w = rng.random()
            if w < 0.3:
                kw["salt"] = signing.Salter(raw=rng.randbytes(16)).qb64
                self.secrets.add(kw["salt"])
            if rng.random() < 0.5:
                kw["stem"] = f"stem{len(self.pres)}-" + rng.choice(["a", "é", "x" * 40])
            if rng.random() < 0.3:
                kw["tier"] = rng.choice(["low", "med", "high"])
        return kw, n, nn

    def incept(self, kw, n, nn, check=True):
        pidx = self.m.pidx
        vs, ds = self.m.incept(**kw)
        same(len(vs), n, "number of keys created")
        same(len(ds), nn, "number of next digests")
        pubs = [v.qb64 for v in vs]
        p = Pre(pubs[0], algo=kw["algo"], salt=kw.get("salt", self.salt), stem=kw.get("stem"), tier=kw.get("tier", "low"), temp=kw["temp"], transferable=kw["transferable"],
                pidx=pidx, ridx=0, kidx=0, cur=pubs, old=[])
        same(self.m.pidx, pidx + 1, "prefix index after creation")
        codes = kw.get("icodes") or self.codes(n, False)
        self.take(p, pubs, codes, "inception")
        p.kidx = n
        self.nexts(p, ds, kw.get("ncodes") or self.codes(nn, False))
        self.pres.append(p)
        self.ctx.saw("incepts")
        self.ctx.saw(p.algo)
        return p

    def expected(self, p, ridx, kidx, codes, transferable):
        if p.algo != "salty":
            return None
        stem = p.stem if p.stem else "%x" % p.pidx
        out = []
        for j, c in enumerate(codes):
            path = f"{stem}{ridx:x}{kidx + j:x}"
            out.append((derive(p.salt, path, p.tier, p.temp, c, transferable), (p.salt, path, p.tier, p.temp, c, transferable)))
            self.secrets.add(out[-1][0][1])
            self.ctx.saw("derived")
        return out

    def take(self, p, pubs, codes, where):
        """Newly current keys at inception."""
        exp = self.expected(p, p.ridx, p.kidx, codes, p.transferable)
        for j, pub in enumerate(pubs):
            if exp:
                same(pub, exp[j][0][0], "key %d of %s from its salt and path", j, where)
            self.issue(pub, (where, p.pre, p.ridx, j), exp and exp[j][1])
            self.secret(pub)
            self.live[pub] = True
            must((pub[0] in "D" or pub.startswith(("1AAJ", "1AAB"))) if p.transferable else (pub[0] == "B" or pub.startswith(("1AAI", "1AAA"))), "key %s is of the wrong kind", pub)
        if not p.transferable:
            self.ctx.saw("nontransferable")

    def nexts(self, p, ds, codes, transferable=None):
        """Next digests after creation or rotation; p.ridx/kidx already current."""
        p.digests = [d.qb64 for d in ds]
        transferable = p.transferable if transferable is None else transferable
        sit = self.m.ks.sits.get(p.pre)
        pubs = list(sit.nxt.pubs)
        same([self.digest(x) for x in pubs], p.digests, "digests of the next keys of %s", p.pre)
        exp = self.expected(p, p.ridx + 1, p.kidx, codes, transferable)
        for j, pub in enumerate(pubs):
            if exp:
                same(pub, exp[j][0][0], "next key %d from its salt and path", j)
            self.issue(pub, ("next", p.pre, p.ridx + 1, j), exp and exp[j][1])
            self.secret(pub)
            self.live[pub] = True

    def rotate(self, p, kw, nn):
        digests, old = p.digests, p.old
        prev = p.cur
        vs, ds = self.m.rotate(pre=p.pre, **kw)
        pubs = [v.qb64 for v in vs]
        same([self.digest(x) for x in pubs], digests, "keys after a rotation of %s are not those committed before", p.pre)
        same(len(ds), nn, "number of next digests")
        p.old, p.cur = prev, pubs
        p.ridx += 1
        p.kidx += len(pubs)
        # the keys before the previous ones are erased
        if kw.get("erase", True):
            for pub in old:
                self.live[pub] = False
        else:
            if old:
                self.ctx.saw("kept_signs")
        self.nexts(p, ds, kw.get("ncodes") or self.codes(nn, False), kw.get("transferable", True))
        for pub in old:
            self.signs(pub, self.live[pub])
        self.nrot += 1
        self.ctx.saw("rotations")

    def rotargs(self):
        rng = self.rng
        curves = not self.aeid and self.curvy and rng.random() < 0.3
        nn = rng.choice([1, 1, 2, 3, 3, 0] if rng.random() < 0.2 else [1, 2])
        kw = dict(temp=True)
        if rng.random() < 0.4 and nn:
            kw["ncodes"] = self.codes(nn, curves)
        else:
            kw["ncount"] = nn
        if rng.random() < 0.3:
            kw["erase"] = False
        return kw, nn

    def ingest(self):
        from keri.core import signing
        rng = self.rng
        lots = []
        for _ in range(rng.randint(1, 4)):
            lots.append([signing.Signer(raw=rng.randbytes(32), transferable=True) for _ in range(rng.randint(1, 3))])
        iridx = rng.randrange(len(lots))
        algo = rng.choice(["salty", "randy"])
        pidx = self.m.pidx
        nn = rng.randint(1, 2)
        ipre, vss = self.m.ingest(secrecies=[[s.qb64 for s in lot] for lot in lots], iridx=iridx, ncount=nn, algo=algo, temp=True)
        same([[v.qb64 for v in vs] for vs in vss], [[s.verfer.qb64 for s in lot] for lot in lots], "public keys of the ingested secrets")
        same(ipre, lots[0][0].verfer.qb64, "prefix of the ingested keys")
        p = Pre(ipre, algo=algo, salt=self.salt, stem=None, tier="low", temp=True, transferable=True, pidx=pidx, ridx=iridx, cur=[s.verfer.qb64 for s in lots[iridx]],
                old=[s.verfer.qb64 for s in lots[iridx - 1]] if iridx else [], kidx=sum(map(len, lots)))
        for j, lot in enumerate(lots):
            for s in lot:
                self.secrets.add(s.qb64)
                self.issue(s.verfer.qb64, ("ingest", ipre, j))
                self.live[s.verfer.qb64] = True
        made = self.m.ks.pubs.get(self.keeping.riKey(ipre, len(lots))).pubs
        same(len(made), nn, "next keys created on ingestion")
        exp = self.expected(p, len(lots), p.kidx, self.codes(nn, False), True)
        for j, pub in enumerate(made):
            if exp:
                same(pub, exp[j][0][0], "key after the ingested ones from its salt and path")
            self.issue(pub, ("ingest next", ipre, j), exp and exp[j][1])
            self.secret(pub)
            self.live[pub] = True
        p.pend = [[s.verfer.qb64 for s in lot] for lot in lots[iridx + 1:]] + [list(made)]
        p.digests = [self.digest(x) for x in p.pend[0]]
        p.ended = False
        self.pres.append(p)
        self.ctx.saw("ingests")
        vs, ds = self.m.replay(pre=p.pre, advance=False)
        same(([v.qb64 for v in vs], [d.qb64 for d in ds]), (p.cur, p.digests), "current keys and next digests of ingested prefix")

    def replay(self, p):
        rng = self.rng
        if len(p.pend) == 1:
            self.same_state(lambda: self.m.replay(pre=p.pre), (IndexError, ValueError), "replay beyond the last ingested keys")
            p.ended = True
            p.kidx = p.kidx
            self.ctx.saw("replay_ends")
            return
        erase = rng.random() < 0.5
        vs, ds = self.m.replay(pre=p.pre, erase=erase)
        p.pend.pop(0) and None
        old, p.old, p.cur = p.old, p.cur, self.shift(p)
        same([v.qb64 for v in vs], p.cur, "keys replayed")
        same([d.qb64 for d in ds], [self.digest(x) for x in p.pend[0]], "next digests replayed")
        p.digests = [d.qb64 for d in ds]
        p.ridx += 1
        if erase:
            for pub in old:
                self.live[pub] = False
        for pub in old:
            self.signs(pub, self.live[pub])
        self.ctx.saw("replays")

    def shift(self, p):
        return p.shifted

    def sign(self):
        """Several keys, indexed with given indices or plain."""
        rng = self.rng
        pubs = [x for p in self.pres for x in p.cur]
        rng.shuffle(pubs)
        pubs = pubs[:rng.randint(1, 5)]
        ser = rng.randbytes(30)
        from keri.core import coring
        given = dict(pubs=pubs) if rng.random() < 0.5 else dict(verfers=[coring.Verfer(qb64=x) for x in pubs])
        w = rng.randrange(4)
        if w == 0:
            sigs = self.m.sign(ser=ser, indexed=False, **given)
        elif w == 1:
            sigs = self.m.sign(ser=ser, **given)
            same([(s.index, s.ondex) for s in sigs], [(j, j) for j in range(len(pubs))], "indices of signatures")
        else:
            idx = [rng.choice([0, 1, 5, 63, 64, 4000]) for _ in pubs]
            if w == 2:
                sigs = self.m.sign(ser=ser, indices=idx, **given)
                same([(s.index, s.ondex) for s in sigs], [(j, j) for j in idx], "indices of signatures")
            else:
                odx = [rng.choice([None, 0, 2, 70]) for _ in pubs]
                sigs = self.m.sign(ser=ser, indices=idx, ondices=odx, **given)
                same([(s.index, s.ondex) for s in sigs], list(zip(idx, odx)), "indices of signatures")
        same(len(sigs), len(pubs), "number of signatures")
        for s, pub in zip(sigs, pubs):
            self.verify(s, ser, pub)

    def decrypt(self):
        rng = self.rng
        pubs = [x for p in self.pres for x in p.cur if x[0] in "BD"]
        if not pubs:
            return
        pub = rng.choice(pubs)
        text = rng.randbytes(rng.randint(1, 60))
        box = pysodium.crypto_box_seal(text, pysodium.crypto_sign_pk_to_box_pk(b64raw(pub)))
        same(bytes(self.m.decrypt(qb64=box, pubs=[pub])), text, "data sealed to a managed key")
        self.ctx.saw("decrypted")

    def move(self, p):
        from keri.core import coring
        new = coring.Diger(ser=self.rng.randbytes(9)).qb64
        self.m.move(old=p.pre, new=new)
        self.same_state(lambda: self.m.rotate(pre=p.pre, temp=True), ValueError, "rotation under a former name")
        other = [q for q in self.pres if q is not p]
        if other:
            self.same_state(lambda: self.m.move(old=new, new=self.rng.choice(other).pre), ValueError, "renaming to a name in use")
        p.pre = new
        self.ctx.saw("moves")

    def badargs(self):
        rng = self.rng
        m = self.m
        p = rng.choice(self.pres)
        from keri.core import coring
        none = coring.Diger(ser=rng.randbytes(9)).qb64
        kl_ = kl.Key(rng).qb64
        acts = [(lambda: m.rotate(pre=none, temp=True), "rotation of an unknown prefix"), (lambda: m.replay(pre=none), "replay of an unknown prefix"),
                (lambda: m.incept(icount=0, temp=True), "creation of no keys"), (lambda: m.incept(ncount=-1, temp=True), "creation of a negative number of next keys"),
                (lambda: m.incept(algo="other", temp=True), "unknown algorithm"), (lambda: m.sign(b"x", pubs=[kl_]), "signing with an unknown key"),
                (lambda: m.sign(b"x", pubs=[p.cur[0]], indices=[-1]), "negative index"), (lambda: m.sign(b"x", pubs=[p.cur[0]], indices=[1, 2]), "more indices than keys"),
                (lambda: m.sign(b"x"), "signing without keys"), (lambda: m.move(old=none, new=none + "x"), "renaming an unknown prefix")]
        act, what = rng.choice(acts)
        self.same_state(act, ValueError, what)
        self.ctx.saw("badargs")

    def again(self):
        """The same salt, stem and parameters once more are refused: the keys are taken."""
        c = [p for p in self.pres if p.algo == "salty" and p.stem and p.ridx == 0 and p.transferable]
        if not c:
            return
        p = self.rng.choice(c)
        if len(p.cur[0]) != 44:
            return
        self.same_state(lambda: self.m.incept(icount=1, ncount=1, salt=p.salt, stem=p.stem, tier=p.tier, temp=p.temp, transferable=p.transferable), ValueError, "creation of keys already issued")
        self.ctx.saw("duplicates_refused")

    # ---------------------------------------------------------- encryption
    def setaeid(self):
        rng = self.rng
        w = rng.random()
        if self.aeid and w < 0.3:
            self.m.updateAeid(*rng.choice([("", ""), (None, None), ("", None)]))
            self.aeid, self.seed = "", None
            self.ctx.saw("aeid_removed")
        else:
            aeid, seed = self.seedpair()
            self.m.updateAeid(aeid, seed)
            self.ctx.saw("aeid_changed" if self.aeid else "aeid_set")
            self.aeid, self.seed = aeid, seed
        self.health()

    def wrongupdate(self):
        from keri import kering
        rng = self.rng
        aeid, seed = self.seedpair()
        other = self.seedpair()
        bad = rng.choice([(aeid, other[1]), (aeid, ""), (aeid, None)] + ([(self.aeid, seed)] if self.aeid else []))
        self.same_state(lambda: self.m.updateAeid(*bad), (kering.AuthError, ValueError), "encryption key with a seed of another")
        self.ctx.saw("wrong_update")

    def restart(self):
        from keri import kering
        rng = self.rng
        if rng.random() < 0.5:
            self.ks.close()
            self.ks.reopen()
            self.ctx.saw("reopened")
        if self.aeid:
            aeid, seed = self.seedpair()
            bad = rng.choice([dict(seed=seed), dict(seed=seed, aeid=aeid), dict(seed=seed, aeid=self.aeid), dict(), dict(aeid=self.aeid)])
            self.same_state(lambda: self.open(**bad), (kering.AuthError,), "opening an encrypted keystore with a wrong or missing seed")
            self.ctx.saw("wrong_seed" if "seed" in bad else "missing_seed")
        self.open(seed=self.seed, aeid=self.aeid or None, salt=rng.choice([None, self.salt]))
        same(self.m.aeid or "", self.aeid, "encryption key after a restart")
        same(self.m.salt, self.salt, "root salt after a restart")
        self.nres += 1
        self.ctx.saw("restarts")
        self.health()


def history(ctx, rng, i):
    r = Run(ctx, rng, i)
    r.curvy = rng.random() < 0.3
    try:
        if not r.curvy and rng.random() < 0.5:
            r.aeid, r.seed = r.seedpair()
            r.open(seed=r.seed, aeid=r.aeid, salt=r.salt, algo=rng.choice([None, "salty"]))
        else:
            r.open(salt=r.salt)
        r.incept(*r.params())
        for _ in range(rng.randint(12, 30) if ctx.thorough else rng.randint(8, 18)):
            w = rng.random()
            p = rng.choice(r.pres)
            ctx.log(round(w, 3), p.pre, r.aeid[:6])
            if w < 0.12:
                r.incept(*r.params())
            elif w < 0.4:
                if not p.ended:
                    p.shifted = p.pend[0]
                    r.replay(p)
                elif not p.digests:
                    r.same_state(lambda: r.m.rotate(pre=p.pre, temp=True), ValueError, "rotation without next keys")
                else:
                    r.rotate(p, *r.rotargs())
            elif w < 0.48:
                r.ingest()
            elif w < 0.58:
                r.sign()
            elif w < 0.63:
                r.decrypt()
            elif w < 0.68:
                r.move(p)
            elif w < 0.74:
                r.badargs()
            elif w < 0.78:
                r.again()
            elif w < 0.84 and not r.curvy:
                r.setaeid()
            elif w < 0.88:
                r.wrongupdate()
            else:
                r.restart()
            if rng.random() < 0.3:
                r.health()
        r.health()
        ctx.case((r.salt, r.nrot, r.nres), r.nrot >= 2 and r.nres >= 1)
        ctx.sample(dict(prefixes=len(r.pres), rotations=r.nrot, restarts=r.nres, keys=len(r.issued)))
    finally:
        r.close()


def twins(ctx, rng, i):
    """Two managers given the same salt and calls make the same keys, whatever their encryption."""
    a = Run(ctx, rng, f"{i}a")
    b = Run(ctx, rng, f"{i}b", salt=a.salt)
    a.curvy = b.curvy = False
    try:
        a.open(salt=a.salt)
        b.aeid, b.seed = b.seedpair()
        b.open(seed=b.seed, aeid=b.aeid, salt=b.salt)
        for _ in range(rng.randint(2, 6)):
            if a.pres and rng.random() < 0.6:
                k = rng.randrange(len(a.pres))
                if not a.pres[k].digests:
                    continue
                args = a.rotargs()
                a.rotate(a.pres[k], *args)
                b.rotate(b.pres[k], *args)
            else:
                args = a.params()
                if args[0]["algo"] == "randy":
                    continue
                b.secrets |= a.secrets
                a.incept(*args)
                b.incept(*args)
            same([p.cur + p.digests for p in a.pres], [p.cur + p.digests for p in b.pres], "keys of two managers with one salt")
            if rng.random() < 0.3:
                b.restart()
        b.health()
        ctx.saw("twins")
        ctx.case((a.salt, len(a.pres), a.nrot), a.nrot > 0)
    finally:
        a.close()
        b.close()


def stretch(ctx, rng, i):
    """Full stretching at the tiers in use."""
    r = Run(ctx, rng, i)
    r.curvy = False
    try:
        r.open(salt=r.salt, tier="low")
        p = r.incept(dict(algo="salty", temp=False, transferable=True, icount=1, ncount=1, **(dict(tier="med") if ctx.thorough and i % 3 == 0 else {})), 1, 1)
        r.rotate(p, dict(ncount=1, temp=False), 1)
        ctx.saw("stretched")
        ctx.case((r.salt,))
    finally:
        r.close()


def collide(ctx, rng, i):
    """Root salt, no stems: derivation paths of different prefixes should differ."""
    r = Run(ctx, rng, i)
    r.curvy = False
    try:
        r.open(salt=r.salt)
        base = dict(algo="salty", temp=True, transferable=True)
        r.incept(dict(base, icount=1, ncount=1), 1, 1)
        p = r.incept(dict(base, icount=1, ncount=1), 1, 1)          # prefix index 1
        for _ in range(3):
            r.rotate(p, dict(ncount=1, temp=True), 1)
        r.rotate(p, dict(ncount=14, temp=True), 14)                # 1, 5, 5..12
        while r.m.pidx < 0x15:
            r.incept(dict(base, icount=1, ncount=0), 1, 0)
        r.incept(dict(base, icount=1, ncount=1), 1, 1)              # prefix index 15: 15, 1, 1
        ctx.case("collide")
    finally:
        r.close()


CASES = [("history", history, 260, 4000), ("twins", twins, 40, 600), ("stretch", stretch, 4, 24), ("collide", collide, 1, 1)]
