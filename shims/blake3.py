"""Stand-in for the blake3 package (API subset)."""
import ctypes
from _vnative import lib

__version__ = "1.0.8"


class blake3:
    name = "blake3"
    digest_size = 32
    block_size = 64

    def __init__(self, data=b"", /, **kwa):
        if kwa.get("key") or kwa.get("derive_key_context"):
            raise NotImplementedError
        self._buf = bytearray(data)

    def update(self, data):
        self._buf += data
        return self

    def digest(self, length=32, *, seek=0):
        n = length + seek
        out = ctypes.create_string_buffer(max(n, 1))
        buf = bytes(self._buf)
        lib.vs_blake3(buf, ctypes.c_size_t(len(buf)), out, ctypes.c_size_t(n))
        return out.raw[seek:n]

    def hexdigest(self, length=32, *, seek=0):
        return self.digest(length, seek=seek).hex()
