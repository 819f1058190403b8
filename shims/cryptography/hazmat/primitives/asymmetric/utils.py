def _int(v):
    b = v.to_bytes(v.bit_length() // 8 + 1, "big")
    return b"\x02" + bytes([len(b)]) + b


def encode_dss_signature(r, s):
    body = _int(r) + _int(s)
    return b"\x30" + bytes([len(body)]) + body


def decode_dss_signature(der):
    if der[0] != 0x30 or der[1] != len(der) - 2 or der[2] != 2:
        raise ValueError("bad der")
    n = der[3]
    r = int.from_bytes(der[4:4 + n], "big")
    o = 4 + n
    if der[o] != 2:
        raise ValueError("bad der")
    m = der[o + 1]
    return r, int.from_bytes(der[o + 2:o + 2 + m], "big")
