import os
import shutil
import stat
import tempfile
from contextlib import contextmanager

from hio import FilerError
from . import doing


@contextmanager
def openFiler(*, cls=None, name="test", temp=True, reopen=True, clear=False, **kwa):
    filer = None
    if cls is None:
        cls = Filer
    try:
        filer = cls(name=name, temp=temp, reopen=reopen, clear=clear, **kwa)
        yield filer
    finally:
        if filer:
            filer.close(clear=filer.temp or clear)


class Filer:
    HeadDirPath = os.path.join(os.path.sep, "usr", "local", "var")
    TailDirPath = "hio"
    CleanTailDirPath = os.path.join("hio", "clean")
    AltHeadDirPath = os.path.expanduser("~")
    AltTailDirPath = ".hio"
    AltCleanTailDirPath = os.path.join(".hio", "clean")
    TempHeadDir = tempfile.gettempdir()
    TempPrefix = "hio_"
    TempSuffix = "_test"
    Perm = stat.S_ISVTX | stat.S_IRUSR | stat.S_IWUSR | stat.S_IXUSR
    Mode = "r+"
    Fext = "text"

    def __init__(self, *, name="main", base="", temp=False, headDirPath=None, perm=None, reopen=True,
                 clear=False, reuse=False, clean=False, filed=False, extensioned=False, mode=None,
                 fext=None, **kwa):
        if os.path.isabs(name):
            raise FilerError(f"Not relative name={name} path.")
        if os.path.isabs(base):
            raise FilerError(f"Not relative base={base} path.")
        self.name = name
        self.base = base
        self.temp = bool(temp)
        self.headDirPath = headDirPath if headDirPath is not None else self.HeadDirPath
        self.perm = perm if perm is not None else self.Perm
        self.path = None
        self.filed = bool(filed)
        self.extensioned = bool(extensioned)
        self.mode = mode if mode is not None else self.Mode
        self.fext = fext if fext is not None else self.Fext
        self.file = None
        self.opened = False
        if reopen:
            self.reopen(clear=clear, reuse=reuse, clean=clean, **kwa)

    def _tail(self, tail, base, name, filed, extensioned, fext):
        p = os.path.join(tail, base, name)
        if filed or extensioned:
            root, ext = os.path.splitext(p)
            if not ext:
                p = f"{p}.{fext}"
        return p

    def exists(self, name="", base="", headDirPath=None, clean=False, filed=False, extensioned=False, fext=None):
        if name and os.path.isabs(name):
            raise FilerError(f"Not relative name={name} path.")
        if base and os.path.isabs(base):
            raise FilerError(f"Not relative base={base} path.")
        fext = fext if fext is not None else self.Fext
        head = headDirPath if headDirPath is not None else self.HeadDirPath
        tail = self.CleanTailDirPath if clean else self.TailDirPath
        alt = self.AltCleanTailDirPath if clean else self.AltTailDirPath
        path = os.path.abspath(os.path.expanduser(os.path.join(head, self._tail(tail, base, name, filed, extensioned, fext))))
        if os.path.exists(path):
            return True
        path = os.path.abspath(os.path.expanduser(os.path.join(self.AltHeadDirPath, self._tail(alt, base, name, filed, extensioned, fext))))
        return os.path.exists(path)

    def reopen(self, temp=None, headDirPath=None, perm=None, clear=False, reuse=False, clean=False,
               mode=None, fext=None, **kwa):
        if temp is not None:
            self.temp = bool(temp)
        if headDirPath is not None:
            self.headDirPath = headDirPath
        if perm is not None:
            self.perm = perm
        if mode is not None:
            self.mode = mode
        if fext is not None:
            self.fext = fext
        if self.opened:
            self.close(clear=clear)
        if not self.path or not reuse or not os.path.exists(self.path):
            self.path, self.file = self.remake(name=self.name, base=self.base, temp=self.temp,
                                               headDirPath=self.headDirPath, perm=self.perm, clean=clean,
                                               filed=self.filed, extensioned=self.extensioned,
                                               mode=self.mode, fext=self.fext)
        elif self.filed:
            self.file = open(self.path, self.mode)
        self.opened = True if not self.filed else bool(self.file and not self.file.closed)
        return self.opened

    def remake(self, *, name="", base="", temp=None, headDirPath=None, perm=None, clean=False,
               filed=False, extensioned=False, mode=None, fext=None, **kwa):
        file = None
        head = headDirPath if headDirPath is not None else self.HeadDirPath
        tail = self.CleanTailDirPath if clean else self.TailDirPath
        alt = self.AltCleanTailDirPath if clean else self.AltTailDirPath
        if temp:
            head = tempfile.mkdtemp(prefix=self.TempPrefix, suffix=self.TempSuffix, dir=self.TempHeadDir)
            path = os.path.abspath(os.path.join(head, self._tail(tail, base, name, filed, extensioned, fext)))
            file = self._make(path, perm, filed, extensioned, mode)
        else:
            path = os.path.abspath(os.path.expanduser(os.path.join(head, self._tail(tail, base, name, filed, extensioned, fext))))
            try:
                file = self._make(path, perm, filed, extensioned, mode)
            except OSError:
                path = os.path.abspath(os.path.expanduser(os.path.join(self.AltHeadDirPath, self._tail(alt, base, name, filed, extensioned, fext))))
                file = self._make(path, perm, filed, extensioned, mode)
        return path, file

    @staticmethod
    def _make(path, perm, filed, extensioned, mode):
        # containment: never touch the system head directories, so keri falls
        # back to its home-directory alternative (HOME is a scratch directory)
        if path.startswith(("/usr/", "/etc/", "/var/", "/opt/", "/repo/", "/verif/")):
            raise OSError("system path refused by the sandbox stand-in")
        if filed or extensioned:
            d = os.path.dirname(path)
            os.makedirs(d, exist_ok=True)
            if filed:
                if not os.path.exists(path):
                    open(path, "w").close()
                return open(path, mode)
            return None
        if not os.path.exists(path):
            os.makedirs(path)
        elif not os.access(path, os.R_OK | os.W_OK):
            raise OSError("unaccessible")
        if perm is not None:
            os.chmod(path, perm)
        return None

    def close(self, clear=False):
        if self.filed and self.file:
            self.file.close()
            self.file = None
        self.opened = False
        if clear:
            self._clearPath()
        return self.opened

    def _clearPath(self):
        if self.file:
            self.file.close()
        if self.path and os.path.exists(self.path):
            if os.path.isfile(self.path):
                os.remove(self.path)
                d = os.path.dirname(self.path)
            else:
                shutil.rmtree(self.path)
                d = None


class FilerDoer(doing.Doer):
    def __init__(self, filer, **kwa):
        super().__init__(**kwa)
        self.filer = filer

    def enter(self, *, temp=None):
        if not self.filer.opened:
            self.filer.reopen()

    def exit(self):
        self.filer.close(clear=self.filer.temp)
