"""Independent reading and writing of CESR elements, from cesrtab."""
import cesrtab

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
IDX = {c: i for i, c in enumerate(B64)}


def b64int(s):
    n = 0
    for c in s:
        n = n * 64 + IDX[c]
    return n


def intb64(n, l):
    out = ""
    for _ in range(l):
        out = B64[n % 64] + out
        n //= 64
    assert n == 0
    return out


def text(n, chars):
    return intb64(n, chars).encode()


def pack(both, raw, chars):
    """Code left aligned, raw right aligned, zeros between; (text, binary)."""
    n = (b64int(both) << (6 * (chars - len(both)))) | int.from_bytes(raw, "big")
    return text(n, chars), n.to_bytes(chars * 3 // 4, "big")


# ------------------------------------------------------------- matter
def varcode(code, n):
    """(actual code, soft) of a variable-length code family for n raw bytes."""
    ls = -n % 3
    q = (n + ls) // 3
    if code[0] in "456":
        if q <= 64 ** 2 - 1:
            return "456"[ls] + code[1], intb64(q, 2)
        return "789"[ls] + "AA" + code[1], intb64(q, 4)
    return "789"[ls] + code[1:], intb64(q, 4)


def matter(code, soft, raw):
    """Encoding of a primitive with its actual code."""
    hs, ss, xs, fs, ls = cesrtab.MATTER[code]
    if fs is None:
        fs = hs + ss + 4 * b64int(soft)
    return pack(code + "_" * xs + soft, raw, fs)


def rawsize(code):
    hs, ss, xs, fs, ls = cesrtab.MATTER[code]
    return (fs - hs - ss) * 3 // 4 - ls


MHARD = {}
for _c in cesrtab.MATTER:
    MHARD[_c[0]] = len(_c)
for _c in B64[:52]:
    MHARD.setdefault(_c, 1)


class Short(Exception):
    pass


class Bad(Exception):
    pass


def _chars(s, lo, hi):
    try:
        return s[lo:hi].decode("ascii")
    except UnicodeDecodeError:
        raise Bad


def _sext(b, n):
    """First n sextets of b as text; Short when bytes are missing."""
    k = (n * 6 + 7) // 8
    if len(b) < k:
        raise Short
    return intb64(int.from_bytes(b[:k], "big") >> (8 * k - 6 * n), n)


def unmatter(s, binary=False):
    """(code, soft, raw, consumed) or raises Short or Bad."""
    if not s:
        raise Short
    take = (lambda n: _sext(s, n)) if binary else (lambda n: _chars(s, 0, n))
    avail = len(s) * 4 // 3 if binary else len(s)
    first = take(1)
    if first not in MHARD:
        raise Bad
    hs = MHARD[first]
    if avail < hs:
        raise Short
    hard = take(hs)
    if hard not in cesrtab.MATTER:
        raise Bad
    hs, ss, xs, fs, ls = cesrtab.MATTER[hard]
    if avail < hs + ss:
        raise Short
    soft = take(hs + ss)[hs:]
    if soft[:xs] != "_" * xs:
        raise Bad
    soft = soft[xs:]
    if fs is None:
        if any(c not in IDX for c in soft):
            raise Bad
        fs = hs + ss + 4 * b64int(soft)
    n = fs * 3 // 4 if binary else fs
    if len(s) < n:
        raise Short
    if binary:
        v = int.from_bytes(s[:n], "big")
    else:
        t = _chars(s, 0, n)
        if any(c not in IDX for c in t):
            raise Bad
        v = b64int(t)
    rs = ((fs - hs - ss) * 6 - 8 * ls) // 8
    if rs < 0:  # lead bytes in no material
        raise Bad
    mat = v & ((1 << (6 * (fs - hs - ss))) - 1)
    if mat >> (8 * rs):
        raise Bad
    return hard, soft, mat.to_bytes(rs, "big"), n


# ------------------------------------------------------------- indexer
CRT = {"B", "D", "F", "0B", "2B", "2D", "2F", "3B"}
IHARD = {c: 1 for c in B64[:52]}
IHARD.update({c: 2 for c in "01234"})


def indexer(code, index, ondex, raw):
    hs, ss, os, fs, ls = cesrtab.INDEXER[code]
    both = code + intb64(index, ss - os) + (intb64(ondex or 0, os) if os else "")
    return pack(both, raw, fs)


def unindexer(s, binary=False):
    """(code, index, ondex, raw, consumed)."""
    if not s:
        raise Short
    take = (lambda n: _sext(s, n)) if binary else (lambda n: _chars(s, 0, n))
    avail = len(s) * 4 // 3 if binary else len(s)
    first = take(1)
    if first not in IHARD:
        raise Bad
    hs = IHARD[first]
    if avail < hs:
        raise Short
    hard = take(hs)
    if hard not in cesrtab.INDEXER:
        raise Bad
    hs, ss, os, fs, ls = cesrtab.INDEXER[hard]
    if avail < hs + ss:
        raise Short
    soft = take(hs + ss)[hs:]
    if any(c not in IDX for c in soft):
        raise Bad
    index = b64int(soft[:ss - os])
    ondex = b64int(soft[ss - os:]) if os else index
    if hard in CRT:
        if os and ondex:
            raise Bad
        ondex = None
    n = fs * 3 // 4 if binary else fs
    if len(s) < n:
        raise Short
    if binary:
        v = int.from_bytes(s[:n], "big")
    else:
        t = _chars(s, 0, n)
        if any(c not in IDX for c in t):
            raise Bad
        v = b64int(t)
    rs = (fs - hs - ss) * 6 // 8
    mat = v & ((1 << (6 * (fs - hs - ss))) - 1)
    if mat >> (8 * rs):
        raise Bad
    return hard, index, ondex, mat.to_bytes(rs, "big"), n


# ------------------------------------------------------------- counter
def counters(major):
    return cesrtab.COUNTER1 if major == 1 else cesrtab.COUNTER2


def uncounter(s, major, binary=False):
    """(code, count, consumed)."""
    tab = counters(major)
    if len(s) < 2:
        raise Short
    take = (lambda n: _sext(s, n)) if binary else (lambda n: _chars(s, 0, n))
    avail = len(s) * 4 // 3 if binary else len(s)
    first = take(2)
    if first[0] != "-" or first[1] not in B64[:52] + "-_":
        raise Bad
    hs = 3 if first[1] == "-" else 5 if first[1] == "_" else 2
    if avail < hs:
        raise Short
    hard = take(hs)
    if hard not in tab:
        raise Bad
    hs, ss, fs = tab[hard]
    n = fs * 3 // 4 if binary else fs
    if len(s) < n:
        raise Short
    soft = take(fs)[hs:]
    if any(c not in IDX for c in soft):
        raise Bad
    return hard, b64int(soft), n
