"""Loads (building on demand) the native helper /verif/native/vshim.c."""
import ctypes
import hashlib
import os
import subprocess
import tempfile

_SRC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "native", "vshim.c")


def _load():
    with open(_SRC, "rb") as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:16]
    for base in (os.path.join(os.path.dirname(os.path.dirname(_SRC)), "build"),
                 os.path.join(tempfile.gettempdir(), f"vshim-{os.getuid()}")):
        path = os.path.join(base, f"vshim-{tag}.so")
        try:
            if not os.path.exists(path):
                os.makedirs(base, exist_ok=True)
                tmp = f"{path}.{os.getpid()}"
                subprocess.run(["gcc", "-O2", "-w", "-shared", "-fPIC", "-o", tmp, _SRC], check=True)
                os.replace(tmp, path)
            return ctypes.CDLL(path)
        except OSError:
            continue
    raise RuntimeError("cannot build native shim")


lib = _load()
