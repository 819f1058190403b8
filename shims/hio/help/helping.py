from collections.abc import Iterable, Sequence
from abc import ABCMeta


class NonStringIterable(metaclass=ABCMeta):
    @classmethod
    def __subclasshook__(cls, C):
        return issubclass(C, Iterable) and not issubclass(C, (str, bytes))


class NonStringSequence(metaclass=ABCMeta):
    @classmethod
    def __subclasshook__(cls, C):
        return issubclass(C, Sequence) and not issubclass(C, (str, bytes))


def isNonStringIterable(o):
    return isinstance(o, Iterable) and not isinstance(o, (str, bytes))


def isNonStringSequence(o):
    return isinstance(o, Sequence) and not isinstance(o, (str, bytes))


def copyfunc(f, name=None):
    return f


def just(n, it, default=None):
    it = list(it)[:n]
    return tuple(it + [default] * (n - len(it)))


def repack(n, seq, default=None):
    return just(n, seq, default)
