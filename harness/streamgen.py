"""Independent writer of CESR streams: attachment groups, framings, and what they must deliver."""
import base64
import copy
import cesrlib as cl
import msggen as mg

V1 = dict(sigers="-A", wigers="-B", cigars="-C", rsgs="-D", frcs="-E", tsgs="-F", sscs="-G", lsgs="-H", ssts="-I", ptds="-L",
          generic="-T", bodyatt="-U", att="-V", non="-W", essrs="-Z")
V2 = dict(sigers="-K", wigers="-L", cigars="-M", rsgs="-N", frcs="-O", ptds="-P", sscs="-S", ssts="-T", tdcs="-W", tsgs="-X", lsgs="-Y",
          essrs="-Z", bsqs="-a", bsss="-b", tmqs="-c", generic="-A", bodyatt="-B", att="-C", non="-H")
FIELDS = ("sigers", "wigers", "cigars", "rsgs", "tsgs", "lsgs", "frcs", "sscs", "ssts", "tdcs", "bsqs", "bsss", "tmqs", "essrs", "ptds")


def counter(major, code, count, big=False):
    """Counter text; the long form when asked for or needed."""
    tab = cl.counters(major)
    if (big or count > 4095) and len(code) == 2:
        code = "-" + code
    hs, ss, fs = tab[code]
    return code + cl.intb64(count, ss)


def genus(major):
    return "-_AAA" + ("BAA" if major == 1 else "CAA")


def mat(code, raw, soft=""):
    return cl.matter(code, soft, raw)[0].decode()


def texter(raw):
    code, soft = cl.varcode("4B", len(raw))
    return mat(code, raw, soft)


def text(s):
    return texter(s.encode())


class Gen:
    """Makes attachments of one CESR version; what() values are the canonical form of chk canon."""

    def __init__(self, rng, major):
        self.rng, self.major, self.codes = rng, major, V1 if major == 1 else V2

    def sig(self):
        c = self.rng.choice(["A", "A", "A", "B", "2A", "2B"])
        i = self.rng.choice([0, 1, 2, 5, 63]) if len(c) == 1 else self.rng.choice([0, 3, 64, 4095])
        return cl.indexer(c, i, i if c == "2A" else None, self.rng.randbytes(64))[0].decode()

    def sigs(self, most=3):
        return [self.sig() for _ in range(self.rng.choice([1, 1, 2, most]))]

    def num(self):
        n = self.rng.choice([0, 1, 2, 255, 65535, self.rng.randrange(2 ** 40)])
        if self.major == 1:
            return mat("0A", n.to_bytes(16, "big")), ("n", n)
        c = self.rng.choice([c for c, l in (("M", 2), ("0H", 4), ("R", 5), ("N", 8), ("0A", 16)) if n < 256 ** l])
        return mat(c, n.to_bytes(cl.rawsize(c), "big")), ("n", n)

    def stamp(self):
        d = mg.stamp(self.rng)
        return mat("1AAG", base64.urlsafe_b64decode(d.replace(":", "c").replace(".", "d").replace("+", "p"))), d

    def nonce(self):
        return self.rng.choice([mg.digest(self.rng), mg.salt(self.rng), "1AAP"])

    def label(self):
        s = self.rng.choice(["issued", "revoked", "two words", "text/plain", "a.b"])
        return text(s)

    def group(self, kind):
        """(text of the group with counter, list of canonical elements)."""
        rng, v1 = self.rng, self.major == 1
        els, body = [], ""
        for _ in range(rng.choice([1, 1, 2, 3])):
            if kind in ("sigers", "wigers"):
                s = self.sig()
                t, e = s, s
            elif kind == "cigars":
                k, s = mg.key(rng, True), mat("0B", rng.randbytes(64))
                t, e = k + s, (k, s)
            elif kind in ("rsgs", "tsgs"):
                p, (n, nv), d, sg = mg.prefix(rng), self.num(), mg.digest(rng), self.sigs()
                t, e = p + n + d + self.nest("sigers", sg), (p, nv, d, sg)
            elif kind == "lsgs":
                p, sg = mg.prefix(rng), self.sigs()
                t, e = p + self.nest("sigers", sg), (p, sg)
            elif kind == "frcs":
                (n, nv), (s, d) = self.num(), self.stamp()
                t, e = n + s, (nv, d)
            elif kind == "sscs":
                (n, nv), d = self.num(), mg.digest(rng)
                t, e = n + d, (nv, d)
            elif kind == "ssts":
                p, (n, nv), d = mg.prefix(rng), self.num(), mg.digest(rng)
                t, e = p + n + d, (p, nv, d)
            elif kind == "tdcs":
                v, d = mat("Y", b"", self.rng.choice(["KERICAA", "ACDCCAA", "KERIBAA"])), mg.digest(rng)
                t, e = v + d, (v, d)
            elif kind == "bsqs":
                e = (mg.digest(rng), self.nonce(), self.nonce(), self.label())
                t = "".join(e)
            elif kind == "bsss":
                n, nv = self.num()
                e = (mg.digest(rng), self.nonce(), self.nonce(), self.label(), nv, self.nonce())
                t = "".join(e[:4]) + n + e[5]
            elif kind == "tmqs":
                e = (mg.digest(rng), self.nonce(), self.label(), texter(rng.randbytes(rng.choice([0, 1, 2, 3, 40]))))
                t = "".join(e)
            elif kind == "essrs":
                e = t = texter(rng.randbytes(rng.choice([1, 2, 3, 50, 200])))
            elif kind == "ptds":
                t = "5AABAA-a" + self.nest("sigers", self.sigs())
                e = t
            els.append(e)
            body += t
        if kind == "ptds":
            els = [("ptds", body)]
        count = len(els) if v1 and kind not in ("rsgs", "ptds") else len(body) // 4
        return self.head(kind, count) + body, els

    def head(self, kind, count):
        code = self.codes[kind]
        big = self.rng.random() < 0.08 and "-" + code in cl.counters(self.major)
        return counter(self.major, code, count, big)

    def nest(self, kind, els):
        body = "".join(els)
        return counter(self.major, self.codes[kind], len(els) if self.major == 1 else len(body) // 4) + body

    def attachments(self, kinds):
        """(text, {field: elements})."""
        out, got = "", {f: [] for f in FIELDS}
        for k in kinds:
            t, els = self.group(k)
            out += t
            got[k] += els
        return out, got

    def enclose(self, kind, body):
        return self.head(kind, len(body) // 4) + body


def binary(t):
    return base64.urlsafe_b64decode(t)
