"""Boot the real keri package from /repo/src (or $VERIF_REPO) on this sandbox's
Python 3.12 with the stand-ins in this directory.

keri targets Python 3.14, where annotations are evaluated lazily; a few modules
would not import on 3.12 without that.  The import hook compiles keri's own
source, unmodified, with the `annotations` future flag for modules that fail
to execute without it.  Bytecode is never written to the repository."""
import __future__
import importlib.abc
import importlib.machinery
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
_here = os.path.dirname(os.path.abspath(__file__))

# dataclass field types are read at run time by these, so they keep eager
# annotations; everything else in keri gets lazy ones.
_EAGER = ("keri.recording", "keri.kering")


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        # name is checked lazily in exec_module; flag chosen by source content:
        # modules that define dataclasses whose .type matters stay eager.
        flags = 0
        if self.name in _LAZY:
            flags = __future__.annotations.compiler_flag
        return compile(data, path, "exec", flags=flags, dont_inherit=True, optimize=_optimize)

    def exec_module(self, module):
        snap = dict(module.__dict__)
        try:
            super().exec_module(module)
        except NameError:
            if self.name in _LAZY:
                raise
            _LAZY.add(self.name)
            module.__dict__.clear()
            module.__dict__.update(snap)
            super().exec_module(module)


_LAZY = {"keri.vc.walleting", "keri.vc.proving", "keri.vc.protocoling"}


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != "keri" and not name.startswith("keri."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path if path is not None else [os.path.join(REPO, "src")])
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
    for p in (_here,):
        if p not in sys.path:
            sys.path.insert(0, p)
    for p in ("/opt/venv/lib/python3.12/site-packages", "/opt/veriftools/pyvenv/lib/python3.12/site-packages"):
        if p not in sys.path:
            sys.path.append(p)


install()
