"""Stand-in for semver."""
import re
_RX = re.compile(r"^(0|[1-9]\d*)\.(0|[1-9]\d*)\.(0|[1-9]\d*)(?:-([0-9A-Za-z.-]+))?(?:\+([0-9A-Za-z.-]+))?$")


class Version:
    def __init__(self, major, minor=0, patch=0, prerelease=None, build=None):
        self.major, self.minor, self.patch, self.prerelease, self.build = int(major), int(minor), int(patch), prerelease, build

    @classmethod
    def parse(cls, s):
        m = _RX.match(s if isinstance(s, str) else s.decode())
        if not m:
            raise ValueError(f"{s!r} is not valid SemVer string")
        return cls(*m.groups())

    def __str__(self):
        return f"{self.major}.{self.minor}.{self.patch}" + (f"-{self.prerelease}" if self.prerelease else "") + (f"+{self.build}" if self.build else "")

    def _key(self):
        pre = []
        for x in (self.prerelease or "").split("."):
            if x:
                pre.append((0, int(x), "") if x.isdigit() else (1, 0, x))
        return (self.major, self.minor, self.patch, 1 if not self.prerelease else 0, pre)


VersionInfo = Version


def compare(a, b):
    x, y = Version.parse(a)._key(), Version.parse(b)._key()
    return (x > y) - (x < y)
