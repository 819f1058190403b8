"""Stand-in for pysodium: Ed25519/X25519 through the system libcrypto, the rest
through native/vshim.c.  Only what keripy uses."""
import ctypes
import hashlib
import os
from _vnative import lib as _v

try:
    _c = ctypes.CDLL("libcrypto.so.3")
except OSError:  # pragma: no cover
    _c = ctypes.CDLL("libcrypto.so")

_vp = ctypes.c_void_p
for _n, _r, _a in (
        ("EVP_PKEY_new_raw_private_key", _vp, (ctypes.c_int, _vp, ctypes.c_char_p, ctypes.c_size_t)),
        ("EVP_PKEY_new_raw_public_key", _vp, (ctypes.c_int, _vp, ctypes.c_char_p, ctypes.c_size_t)),
        ("EVP_PKEY_get_raw_public_key", ctypes.c_int, (_vp, ctypes.c_char_p, ctypes.POINTER(ctypes.c_size_t))),
        ("EVP_PKEY_free", None, (_vp,)),
        ("EVP_MD_CTX_new", _vp, ()), ("EVP_MD_CTX_free", None, (_vp,)),
        ("EVP_DigestSignInit", ctypes.c_int, (_vp, _vp, _vp, _vp, _vp)),
        ("EVP_DigestSign", ctypes.c_int, (_vp, ctypes.c_char_p, ctypes.POINTER(ctypes.c_size_t), ctypes.c_char_p, ctypes.c_size_t)),
        ("EVP_DigestVerifyInit", ctypes.c_int, (_vp, _vp, _vp, _vp, _vp)),
        ("EVP_DigestVerify", ctypes.c_int, (_vp, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t)),
        ("EVP_PKEY_CTX_new", _vp, (_vp, _vp)), ("EVP_PKEY_CTX_free", None, (_vp,)),
        ("EVP_PKEY_derive_init", ctypes.c_int, (_vp,)),
        ("EVP_PKEY_derive_set_peer", ctypes.c_int, (_vp, _vp)),
        ("EVP_PKEY_derive", ctypes.c_int, (_vp, ctypes.c_char_p, ctypes.POINTER(ctypes.c_size_t))),
        ("ERR_clear_error", None, ())):
    _f = getattr(_c, _n)
    _f.restype = _r
    _f.argtypes = _a

_ED, _X = 1087, 1034

crypto_sign_SEEDBYTES = 32
crypto_sign_PUBLICKEYBYTES = 32
crypto_sign_SECRETKEYBYTES = 64
crypto_sign_BYTES = 64
crypto_box_SEEDBYTES = 32
crypto_box_PUBLICKEYBYTES = 32
crypto_box_SECRETKEYBYTES = 32
crypto_box_NONCEBYTES = 24
crypto_box_MACBYTES = 16
crypto_box_BEFORENMBYTES = 32
crypto_box_SEALBYTES = 48
crypto_generichash_BYTES = 32
crypto_pwhash_SALTBYTES = 16
crypto_pwhash_ALG_ARGON2ID13 = 2
crypto_pwhash_ALG_DEFAULT = 2
crypto_pwhash_OPSLIMIT_INTERACTIVE = 2
crypto_pwhash_MEMLIMIT_INTERACTIVE = 67108864
crypto_pwhash_OPSLIMIT_MODERATE = 3
crypto_pwhash_MEMLIMIT_MODERATE = 268435456
crypto_pwhash_OPSLIMIT_SENSITIVE = 4
crypto_pwhash_MEMLIMIT_SENSITIVE = 1073741824


def _b(x):
    return x.encode() if isinstance(x, str) else bytes(x)


# Deterministic replay: a harness may replace this source of randomness.
_random = os.urandom


def randombytes(size):
    return _random(size)


_pubcache = {}


def _pub(kind, seed):
    pub = _pubcache.get((kind, seed))
    if pub is None:
        pk = _c.EVP_PKEY_new_raw_private_key(kind, None, seed, 32)
        out = ctypes.create_string_buffer(32)
        n = ctypes.c_size_t(32)
        _c.EVP_PKEY_get_raw_public_key(pk, out, ctypes.byref(n))
        _c.EVP_PKEY_free(pk)
        pub = out.raw
        if len(_pubcache) > 20000:
            _pubcache.clear()
        _pubcache[(kind, seed)] = pub
    return pub


def crypto_sign_seed_keypair(seed):
    seed = _b(seed)
    if len(seed) != 32:
        raise ValueError("invalid seed size")
    pk = _pub(_ED, seed)
    return pk, seed + pk


def crypto_sign_keypair():
    return crypto_sign_seed_keypair(randombytes(32))


def crypto_sign_sk_to_seed(sk):
    return _b(sk)[:32]


def crypto_sign_detached(m, sk):
    m, sk = _b(m), _b(sk)
    if len(sk) != 64:
        raise ValueError("invalid secret key size")
    pk = _c.EVP_PKEY_new_raw_private_key(_ED, None, sk[:32], 32)
    ctx = _c.EVP_MD_CTX_new()
    _c.EVP_DigestSignInit(ctx, None, None, None, pk)
    out = ctypes.create_string_buffer(64)
    n = ctypes.c_size_t(64)
    ok = _c.EVP_DigestSign(ctx, out, ctypes.byref(n), m, len(m))
    _c.EVP_MD_CTX_free(ctx)
    _c.EVP_PKEY_free(pk)
    if ok != 1:
        raise ValueError
    return out.raw


def crypto_sign(m, sk):
    return crypto_sign_detached(m, sk) + _b(m)


def crypto_sign_verify_detached(sig, msg, pk):
    sig, msg, pk = _b(sig), _b(msg), _b(pk)
    if len(sig) != 64 or len(pk) != 32:
        raise ValueError("invalid signature or key size")
    p = _c.EVP_PKEY_new_raw_public_key(_ED, None, pk, 32)
    if not p:
        _c.ERR_clear_error()
        raise ValueError
    ctx = _c.EVP_MD_CTX_new()
    _c.EVP_DigestVerifyInit(ctx, None, None, None, p)
    ok = _c.EVP_DigestVerify(ctx, sig, 64, msg, len(msg))
    _c.EVP_MD_CTX_free(ctx)
    _c.EVP_PKEY_free(p)
    _c.ERR_clear_error()
    if ok != 1:
        raise ValueError


def crypto_sign_open(sm, pk):
    sm = _b(sm)
    crypto_sign_verify_detached(sm[:64], sm[64:], pk)
    return sm[64:]


_P = 2 ** 255 - 19


def crypto_sign_pk_to_box_pk(pk):
    y = int.from_bytes(_b(pk), "little") & ((1 << 255) - 1)
    u = (1 + y) * pow(1 - y, _P - 2, _P) % _P
    return u.to_bytes(32, "little")


def crypto_sign_sk_to_box_sk(sk):
    h = bytearray(hashlib.sha512(_b(sk)[:32]).digest()[:32])
    h[0] &= 248
    h[31] &= 127
    h[31] |= 64
    return bytes(h)


def crypto_scalarmult_curve25519_base(n):
    return _pub(_X, _b(n))


crypto_scalarmult_base = crypto_scalarmult_curve25519_base


def crypto_scalarmult_curve25519(n, p):
    a = _c.EVP_PKEY_new_raw_private_key(_X, None, _b(n), 32)
    b = _c.EVP_PKEY_new_raw_public_key(_X, None, _b(p), 32)
    ctx = _c.EVP_PKEY_CTX_new(a, None)
    _c.EVP_PKEY_derive_init(ctx)
    _c.EVP_PKEY_derive_set_peer(ctx, b)
    out = ctypes.create_string_buffer(32)
    k = ctypes.c_size_t(32)
    ok = _c.EVP_PKEY_derive(ctx, out, ctypes.byref(k))
    _c.EVP_PKEY_CTX_free(ctx)
    _c.EVP_PKEY_free(a)
    _c.EVP_PKEY_free(b)
    _c.ERR_clear_error()
    if ok != 1:
        raise ValueError
    return out.raw


def crypto_box_seed_keypair(seed):
    sk = hashlib.sha512(_b(seed)).digest()[:32]
    return crypto_scalarmult_curve25519_base(sk), sk


def crypto_box_keypair():
    sk = randombytes(32)
    return crypto_scalarmult_curve25519_base(sk), sk


def crypto_box_beforenm(pk, sk):
    out = ctypes.create_string_buffer(32)
    _v.vs_hsalsa20(out, bytes(16), crypto_scalarmult_curve25519(sk, pk))
    return out.raw


def _stream(buf, nonce, k):
    b = ctypes.create_string_buffer(bytes(buf), len(buf))
    _v.vs_xsalsa20_xor(b, ctypes.c_size_t(len(buf)), nonce, k)
    return b.raw


def _poly(m, key):
    tag = ctypes.create_string_buffer(16)
    _v.vs_poly1305(tag, m, ctypes.c_size_t(len(m)), key)
    return tag.raw


def crypto_box_afternm(msg, nonce, k):
    out = _stream(bytes(32) + _b(msg), _b(nonce), k)
    return _poly(out[32:], out[:32]) + out[32:]


def crypto_box_open_afternm(c, nonce, k):
    c = _b(c)
    if len(c) < 16:
        raise ValueError
    key = _stream(bytes(32), _b(nonce), k)
    if _poly(c[16:], key) != c[:16]:
        raise ValueError
    return _stream(bytes(32) + c[16:], _b(nonce), k)[32:]


def crypto_box(msg, nonce, pk, sk):
    return crypto_box_afternm(msg, nonce, crypto_box_beforenm(pk, sk))


def crypto_box_open(c, nonce, pk, sk):
    return crypto_box_open_afternm(c, nonce, crypto_box_beforenm(pk, sk))


def crypto_box_detached(msg, nonce, pk, sk):
    c = crypto_box(msg, nonce, pk, sk)
    return c[16:], c[:16]


def crypto_box_open_detached(c, mac, nonce, pk, sk):
    return crypto_box_open(_b(mac) + _b(c), nonce, pk, sk)


def crypto_box_seal(msg, k):
    k = _b(k)
    epk, esk = crypto_box_keypair()
    nonce = hashlib.blake2b(epk + k, digest_size=24).digest()
    return epk + crypto_box(_b(msg), nonce, k, esk)


def crypto_box_seal_open(c, pk, sk):
    c, pk = _b(c), _b(pk)
    if len(c) < 48:
        raise ValueError
    nonce = hashlib.blake2b(c[:32] + pk, digest_size=24).digest()
    return crypto_box_open(c[32:], nonce, c[:32], sk)


def crypto_generichash(m, k=b"", outlen=32):
    return hashlib.blake2b(_b(m), key=_b(k), digest_size=outlen).digest()


_pwcache = {}


def crypto_pwhash(outlen, passwd, salt, opslimit, memlimit, alg=2):
    passwd, salt = _b(passwd), _b(salt)
    if len(salt) != 16:
        raise ValueError("invalid salt size")
    key = (outlen, passwd, salt, opslimit, memlimit)
    if key not in _pwcache:
        out = ctypes.create_string_buffer(outlen)
        if _v.vs_argon2id(out, outlen, passwd, len(passwd), salt, 16, opslimit, memlimit // 1024):
            raise ValueError
        if len(_pwcache) > 20000:
            _pwcache.clear()
        _pwcache[key] = out.raw
    return _pwcache[key]
