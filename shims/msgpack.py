"""Stand-in for msgpack (pure-Python, spec subset keripy uses)."""
import struct


class ExtraData(ValueError):
    pass


class OutOfData(ValueError):
    pass


def _enc(o, out):
    if o is None:
        out.append(b"\xc0")
    elif o is True:
        out.append(b"\xc3")
    elif o is False:
        out.append(b"\xc2")
    elif isinstance(o, int):
        if 0 <= o < 128:
            out.append(bytes([o]))
        elif -32 <= o < 0:
            out.append(struct.pack("b", o))
        elif o > 0:
            for lim, code, fmt in ((1 << 8, 0xcc, ">B"), (1 << 16, 0xcd, ">H"), (1 << 32, 0xce, ">I"), (1 << 64, 0xcf, ">Q")):
                if o < lim:
                    out.append(bytes([code]) + struct.pack(fmt, o))
                    return
            raise OverflowError("Integer value out of range")
        else:
            for lim, code, fmt in ((1 << 7, 0xd0, ">b"), (1 << 15, 0xd1, ">h"), (1 << 31, 0xd2, ">i"), (1 << 63, 0xd3, ">q")):
                if o >= -lim:
                    out.append(bytes([code]) + struct.pack(fmt, o))
                    return
            raise OverflowError("Integer value out of range")
    elif isinstance(o, float):
        out.append(b"\xcb" + struct.pack(">d", o))
    elif isinstance(o, str):
        b = o.encode()
        n = len(b)
        if n < 32:
            out.append(bytes([0xa0 | n]))
        elif n < 1 << 8:
            out.append(bytes([0xd9, n]))
        elif n < 1 << 16:
            out.append(b"\xda" + struct.pack(">H", n))
        else:
            out.append(b"\xdb" + struct.pack(">I", n))
        out.append(b)
    elif isinstance(o, (bytes, bytearray, memoryview)):
        b = bytes(o)
        n = len(b)
        if n < 1 << 8:
            out.append(bytes([0xc4, n]))
        elif n < 1 << 16:
            out.append(b"\xc5" + struct.pack(">H", n))
        else:
            out.append(b"\xc6" + struct.pack(">I", n))
        out.append(b)
    elif isinstance(o, (list, tuple)):
        n = len(o)
        if n < 16:
            out.append(bytes([0x90 | n]))
        elif n < 1 << 16:
            out.append(b"\xdc" + struct.pack(">H", n))
        else:
            out.append(b"\xdd" + struct.pack(">I", n))
        for v in o:
            _enc(v, out)
    elif isinstance(o, dict):
        n = len(o)
        if n < 16:
            out.append(bytes([0x80 | n]))
        elif n < 1 << 16:
            out.append(b"\xde" + struct.pack(">H", n))
        else:
            out.append(b"\xdf" + struct.pack(">I", n))
        for k, v in o.items():
            _enc(k, out)
            _enc(v, out)
    else:
        raise TypeError(f"can not serialize {type(o).__name__!r} object")


def packb(o, **kwa):
    out = []
    _enc(o, out)
    return b"".join(out)


dumps = packb


def _dec(b, i):
    def take(n):
        if i + n > len(b):
            raise OutOfData("Unpack failed: incomplete input")
        return b[i:i + n]

    c = take(1)[0]
    i += 1

    def num(fmt):
        nonlocal i
        n = struct.calcsize(fmt)
        v = struct.unpack(fmt, take(n))[0]
        i += n
        return v

    def raw(n):
        nonlocal i
        v = bytes(take(n))
        i += n
        return v

    def arr(n):
        nonlocal i
        r = []
        for _ in range(n):
            v, i = _dec(b, i)
            r.append(v)
        return r

    def mp(n):
        nonlocal i
        r = {}
        for _ in range(n):
            k, i = _dec(b, i)
            if not isinstance(k, (str, bytes)):
                raise ValueError(f"{type(k)} is not allowed for map key when strict_map_key=True")
            v, i = _dec(b, i)
            r[k] = v
        return r

    if c < 0x80:
        return c, i
    if c >= 0xe0:
        return c - 256, i
    if c < 0x90:
        r = mp(c & 15)
        return r, i
    if c < 0xa0:
        r = arr(c & 15)
        return r, i
    if c < 0xc0:
        r = raw(c & 31).decode()
        return r, i
    if c == 0xc0:
        return None, i
    if c == 0xc2:
        return False, i
    if c == 0xc3:
        return True, i
    if c in (0xc4, 0xc5, 0xc6):
        r = raw(num({0xc4: ">B", 0xc5: ">H", 0xc6: ">I"}[c]))
        return r, i
    fm = {0xca: ">f", 0xcb: ">d", 0xcc: ">B", 0xcd: ">H", 0xce: ">I", 0xcf: ">Q",
          0xd0: ">b", 0xd1: ">h", 0xd2: ">i", 0xd3: ">q"}
    if c in fm:
        r = num(fm[c])
        return r, i
    if c in (0xd9, 0xda, 0xdb):
        r = raw(num({0xd9: ">B", 0xda: ">H", 0xdb: ">I"}[c])).decode()
        return r, i
    if c in (0xdc, 0xdd):
        r = arr(num({0xdc: ">H", 0xdd: ">I"}[c]))
        return r, i
    if c in (0xde, 0xdf):
        r = mp(num({0xde: ">H", 0xdf: ">I"}[c]))
        return r, i
    raise ValueError(f"Unpack failed: unsupported tag {c:#x}")


def unpackb(b, **kwa):
    b = bytes(b)
    r, i = _dec(b, 0)
    if i != len(b):
        raise ExtraData("unpack(b) received extra data.")
    return r


loads = unpackb
