"""Stand-in for cbor2 (pure-Python, RFC 8949 subset keripy uses)."""
import struct


class CBORError(Exception):
    pass


class CBORDecodeError(CBORError):
    pass


class CBORDecodeEOF(CBORDecodeError, EOFError):
    pass


class CBORDecodeValueError(CBORDecodeError, ValueError):
    pass


class CBOREncodeTypeError(CBORError, TypeError):
    pass


def _head(m, n):
    m <<= 5
    if n < 24:
        return bytes([m | n])
    for lim, code, fmt in ((1 << 8, 24, ">B"), (1 << 16, 25, ">H"), (1 << 32, 26, ">I"), (1 << 64, 27, ">Q")):
        if n < lim:
            return bytes([m | code]) + struct.pack(fmt, n)
    raise OverflowError


def _enc(o, out):
    if o is None:
        out.append(b"\xf6")
    elif o is True:
        out.append(b"\xf5")
    elif o is False:
        out.append(b"\xf4")
    elif isinstance(o, int):
        if -(1 << 64) <= o < 1 << 64:
            out.append(_head(0, o) if o >= 0 else _head(1, -1 - o))
        else:
            tag, v = (2, o) if o >= 0 else (3, -1 - o)
            b = v.to_bytes((v.bit_length() + 7) // 8, "big")
            out.append(_head(6, tag) + _head(2, len(b)) + b)
    elif isinstance(o, float):
        out.append(b"\xfb" + struct.pack(">d", o))
    elif isinstance(o, str):
        b = o.encode()
        out.append(_head(3, len(b)))
        out.append(b)
    elif isinstance(o, (bytes, bytearray, memoryview)):
        b = bytes(o)
        out.append(_head(2, len(b)))
        out.append(b)
    elif isinstance(o, (list, tuple)):
        out.append(_head(4, len(o)))
        for v in o:
            _enc(v, out)
    elif isinstance(o, dict):
        out.append(_head(5, len(o)))
        for k, v in o.items():
            _enc(k, out)
            _enc(v, out)
    else:
        raise CBOREncodeTypeError(f"cannot serialize type {type(o).__name__}")


def dumps(o, **kwa):
    out = []
    _enc(o, out)
    return b"".join(out)


def _dec(b, i):
    if i >= len(b):
        raise CBORDecodeEOF("premature end of stream")
    c = b[i]
    i += 1
    m, a = c >> 5, c & 31
    if a < 24:
        n = a
    elif a < 28:
        k = 1 << (a - 24)
        if i + k > len(b):
            raise CBORDecodeEOF("premature end of stream")
        n = int.from_bytes(b[i:i + k], "big")
        rawf = b[i:i + k]
        i += k
    elif a == 31 and m in (2, 3, 4, 5):
        n = None
    else:
        raise CBORDecodeValueError(f"unknown additional information {a}")
    if m == 0:
        return n, i
    if m == 1:
        return -1 - n, i
    if m in (2, 3):
        if n is None:
            parts = []
            while True:
                if i >= len(b):
                    raise CBORDecodeEOF("premature end of stream")
                if b[i] == 0xff:
                    i += 1
                    break
                v, i = _dec(b, i)
                parts.append(v)
            return (b"" if m == 2 else "").join(parts), i
        if i + n > len(b):
            raise CBORDecodeEOF(f"premature end of stream (expected to read {n} bytes)")
        v = b[i:i + n]
        i += n
        if m == 3:
            try:
                v = v.decode()
            except UnicodeDecodeError as ex:
                raise CBORDecodeValueError("error decoding unicode string") from ex
        return v, i
    if m == 4:
        r = []
        while n is None or len(r) < n:
            if n is None and i < len(b) and b[i] == 0xff:
                i += 1
                break
            v, i = _dec(b, i)
            r.append(v)
        return r, i
    if m == 5:
        r = {}
        cnt = 0
        while n is None or cnt < n:
            if n is None and i < len(b) and b[i] == 0xff:
                i += 1
                break
            k, i = _dec(b, i)
            v, i = _dec(b, i)
            try:
                r[k] = v
            except TypeError as ex:
                raise CBORDecodeValueError("unhashable key") from ex
            cnt += 1
        return r, i
    if m == 6:
        v, i = _dec(b, i)
        if n == 2:
            return int.from_bytes(v, "big"), i
        if n == 3:
            return -1 - int.from_bytes(v, "big"), i
        return v, i
    if a < 20 or a == 24:
        return ("simple", n), i
    if a == 20:
        return False, i
    if a == 21:
        return True, i
    if a in (22, 23):
        return None, i
    if a == 25:
        return struct.unpack(">e", rawf)[0], i
    if a == 26:
        return struct.unpack(">f", rawf)[0], i
    if a == 27:
        return struct.unpack(">d", rawf)[0], i
    raise CBORDecodeValueError("bad simple value")


def loads(b, **kwa):
    return _dec(bytes(b), 0)[0]
