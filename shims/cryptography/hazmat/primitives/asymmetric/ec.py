import os

from cryptography.exceptions import InvalidSignature
from .utils import encode_dss_signature, decode_dss_signature

_random = os.urandom


class _Curve:
    pass


class SECP256R1(_Curve):
    name = "secp256r1"
    p = 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff
    a = p - 3
    b = 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
    n = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
    G = (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
         0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)


class SECP256K1(_Curve):
    name = "secp256k1"
    p = 2 ** 256 - 2 ** 32 - 977
    a = 0
    b = 7
    n = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
    G = (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798,
         0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)


def _add(c, P, Q):
    if P is None:
        return Q
    if Q is None:
        return P
    p = c.p
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0:
            return None
        m = (3 * P[0] * P[0] + c.a) * pow(2 * P[1], -1, p) % p
    else:
        m = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
    x = (m * m - P[0] - Q[0]) % p
    return x, (m * (P[0] - x) - P[1]) % p


def _mul(c, k, P):
    R = None
    while k:
        if k & 1:
            R = _add(c, R, P)
        P = _add(c, P, P)
        k >>= 1
    return R


class ECDSA:
    def __init__(self, algorithm):
        self.algorithm = algorithm


class EllipticCurvePublicKey:
    def __init__(self, curve, pt):
        self.curve, self.pt = curve, pt

    @classmethod
    def from_encoded_point(cls, curve, data):
        data = bytes(data)
        if not data:
            raise ValueError("data must not be an empty byte string")
        p = curve.p
        if data[0] in (2, 3) and len(data) == 33:
            x = int.from_bytes(data[1:], "big")
            if x >= p:
                raise ValueError("Invalid EC key.")
            y2 = (x ** 3 + curve.a * x + curve.b) % p
            y = pow(y2, (p + 1) // 4, p)
            if y * y % p != y2:
                raise ValueError("Invalid EC key.")
            if y & 1 != data[0] & 1:
                y = p - y
            return cls(curve, (x, y))
        if data[0] == 4 and len(data) == 65:
            x, y = int.from_bytes(data[1:33], "big"), int.from_bytes(data[33:], "big")
            if (y * y - x ** 3 - curve.a * x - curve.b) % p:
                raise ValueError("Invalid EC key.")
            return cls(curve, (x, y))
        raise ValueError("Unsupported elliptic curve point type")

    def public_bytes(self, encoding=None, format=None):
        if format == "Compressed":
            return bytes([2 + (self.pt[1] & 1)]) + self.pt[0].to_bytes(32, "big")
        return b"\x04" + self.pt[0].to_bytes(32, "big") + self.pt[1].to_bytes(32, "big")

    def verify(self, sig, data, alg):
        c = self.curve
        try:
            r, s = decode_dss_signature(sig)
        except (ValueError, IndexError) as ex:
            raise InvalidSignature from ex
        if not (0 < r < c.n and 0 < s < c.n):
            raise InvalidSignature
        e = int.from_bytes(alg.algorithm.h(bytes(data)), "big")
        w = pow(s, -1, c.n)
        R = _add(c, _mul(c, e * w % c.n, c.G), _mul(c, r * w % c.n, self.pt))
        if R is None or R[0] % c.n != r:
            raise InvalidSignature


class EllipticCurvePrivateKey:
    def __init__(self, curve, d):
        self.curve, self.d = curve, d

    def public_key(self):
        return EllipticCurvePublicKey(self.curve, _mul(self.curve, self.d, self.curve.G))

    def sign(self, data, alg):
        c = self.curve
        e = int.from_bytes(alg.algorithm.h(bytes(data)), "big")
        while True:
            k = int.from_bytes(_random(32), "big") % c.n
            if not k:
                continue
            r = _mul(c, k, c.G)[0] % c.n
            s = pow(k, -1, c.n) * (e + r * self.d) % c.n
            if r and s:
                return encode_dss_signature(r, s)

    def private_numbers(self):
        return type("N", (), {"private_value": self.d})()


def derive_private_key(d, curve):
    if not 0 < d < curve.n:
        raise ValueError("private_value must be a positive integer.")
    return EllipticCurvePrivateKey(curve, d)


def generate_private_key(curve):
    return derive_private_key(int.from_bytes(_random(32), "big") % (curve.n - 1) + 1, curve)
