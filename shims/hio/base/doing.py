import functools
import inspect
from collections import deque
from types import MethodType

from . import tyming


class Doist(tyming.Tymist):
    def __init__(self, real=False, limit=None, doers=None, temp=None, **kwa):
        super().__init__(**kwa)
        self.real = bool(real)
        self.limit = abs(float(limit)) if limit is not None else 0.0
        self.done = None
        self.doers = list(doers) if doers is not None else []
        self.deeds = deque()
        self.temp = temp

    def do(self, doers=None, limit=None, tyme=None, temp=None):
        self.done = False
        if doers is not None:
            self.doers = list(doers)
        if limit is not None:
            self.limit = abs(float(limit))
        if tyme is not None:
            self.tyme = tyme
        start = self.tyme
        try:
            self.enter(temp=temp)
            while True:
                self.recur()
                if not self.deeds:
                    self.done = True
                    break
                if self.limit and self.tyme - start >= self.limit:
                    break
        finally:
            self.exit()
        return self.done

    def enter(self, doers=None, temp=None):
        if doers is None:
            doers = self.doers
        deeds = _enter(doers, self.tymen(), self.tyme)
        if doers is self.doers:
            self.deeds = deeds
        return deeds

    def recur(self, tyme=None, deeds=None):
        if tyme is not None:
            self.tyme = tyme
        deeds = self.deeds if deeds is None else deeds
        _recur(deeds, self.tyme)
        self.tick()

    def exit(self, deeds=None):
        _exit(self.deeds if deeds is None else deeds)


def _enter(doers, tymth, tyme):
    deeds = deque()
    for doer in doers:
        dog = doer(tymth=tymth, tock=doer.tock, **(doer.opts or {}))
        try:
            next(dog)
        except StopIteration as ex:
            doer.done = ex.value
        else:
            deeds.append([dog, tyme, doer])
            doer.done = False
    return deeds


def _recur(deeds, tyme):
    for _ in range(len(deeds)):
        dog, retyme, doer = deeds.popleft()
        if tyme >= retyme:
            try:
                tock = dog.send(tyme)
            except StopIteration as ex:
                doer.done = ex.value
            except Exception:
                raise
            else:
                retyme = tyme + (tock or 0.0)
                deeds.append([dog, retyme, doer])
        else:
            deeds.append([dog, retyme, doer])


def _exit(deeds):
    while deeds:
        dog, _, doer = deeds.pop()
        try:
            doer.done = dog.close()
        except StopIteration:
            pass
        if doer.done is None:
            doer.done = False


class Doer(tyming.Tymee):
    def __init__(self, *, tock=0.0, opts=None, name=None, **kwa):
        super().__init__(**kwa)
        self.done = None
        self.tock = tock
        self.opts = opts if opts is not None else {}

    @property
    def tock(self):
        return self._tock

    @tock.setter
    def tock(self, v):
        self._tock = abs(float(v))

    def __call__(self, **kwa):
        return self.do(**kwa)

    def do(self, tymth, *, tock=0.0, temp=None, **opts):
        try:
            self.wind(tymth)
            self.tock = tock
            self.done = False
            self.enter(temp=temp) if temp is not None else self.enter()
            if _isgen(self.recur):
                self.done = yield from self.recur()
            else:
                while not self.done:
                    tyme = yield self.tock
                    self.done = self.recur(tyme=tyme)
        except GeneratorExit:
            self.close()
        except Exception:
            self.abort(ex=None)
            raise
        else:
            self.clean()
        finally:
            self.exit()
        return self.done

    def enter(self, *, temp=None):
        pass

    def recur(self, tyme):
        return False

    def clean(self):
        pass

    def close(self):
        pass

    def abort(self, ex):
        pass

    def exit(self):
        pass


def _isgen(m):
    return inspect.isgeneratorfunction(getattr(m, "__func__", m))


class DoDoer(Doer):
    def __init__(self, doers=None, always=False, **kwa):
        super().__init__(**kwa)
        self.doers = doers if doers is not None else []
        self.deeds = deque()
        self.always = bool(always)

    @property
    def always(self):
        return self._always

    @always.setter
    def always(self, v):
        self._always = bool(v)

    def do(self, tymth, *, tock=0.0, temp=None, doers=None, always=None, **opts):
        try:
            self.wind(tymth)
            self.tock = tock
            self.done = False
            if doers is not None:
                self.doers = doers
            if always is not None:
                self.always = always
            self.enter(temp=temp) if temp is not None else self.enter()
            while not self.done:
                tyme = yield self.tock
                self.done = self.recur(tyme=tyme)
        except GeneratorExit:
            self.close()
        except Exception:
            self.abort(ex=None)
            raise
        else:
            self.clean()
        finally:
            self.exit(deeds=self.deeds)
        return self.done

    def enter(self, *, doers=None, deeds=None, temp=None):
        if doers is None:
            doers = self.doers
        new = _enter(doers, self.tymth, self.tyme)
        if deeds is None:
            self.deeds = new
        else:
            deeds.extend(new)
        return new

    def recur(self, tyme, deeds=None):
        deeds = self.deeds if deeds is None else deeds
        _recur(deeds, tyme)
        if not deeds and not self.always:
            return all(d.done for d in self.doers) or True
        return False

    def exit(self, deeds=None):
        _exit(self.deeds if deeds is None else deeds)

    def extend(self, doers):
        doers = list(doers)
        self.doers.extend(doers)
        if self.tymth is not None:
            self.deeds.extend(_enter(doers, self.tymth, self.tyme))

    def remove(self, doers):
        for doer in list(doers):
            try:
                self.doers.remove(doer)
            except ValueError:
                raise ValueError(f"Doer={doer} not in .doers")
        keep, gone = deque(), deque()
        for deed in self.deeds:
            (gone if any(deed[2] is d for d in doers) else keep).append(deed)
        # mutate in place: recur may be walking this deque
        self.deeds.clear()
        self.deeds.extend(keep)
        _exit(gone)


def doify(f, *, name=None, tock=0.0, **opts):
    if inspect.ismethod(f):
        @functools.wraps(f.__func__)
        def inner(self, *pa, **kwa):
            return f.__func__(self, *pa, **kwa)
        g = MethodType(inner, f.__self__)
        target = inner

        class _Do:
            def __init__(self):
                self.tock = tock
                self.done = None
                self.opts = dict(opts)
                self.__name__ = name or f.__name__
                self.__func__ = target
                self.__self__ = f.__self__

            def __call__(self, *pa, **kwa):
                return g(*pa, **kwa)
        return _Do()

    @functools.wraps(f)
    def wrap(*pa, **kwa):
        return f(*pa, **kwa)
    if name:
        wrap.__name__ = name
    wrap.tock = tock
    wrap.done = None
    wrap.opts = dict(opts)
    return wrap


def doize(*, tock=0.0, **opts):
    def deco(f):
        f.tock = tock
        f.done = None
        f.opts = dict(opts)
        return f
    return deco


def bareDo(tymth=None, tock=0.0, **opts):
    yield
    return True


class ReDoer(Doer):
    pass
