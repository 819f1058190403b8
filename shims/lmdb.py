"""Stand-in for py-lmdb: an in-process ordered key/value store with LMDB's
transaction, snapshot and dupsort semantics (the API subset keripy uses).

Committed state lives in a process-wide registry keyed by the environment's
directory, so closing and reopening an environment reloads what was committed.
A marker file data.mdb ties the registry entry to the directory: removing the
directory removes the database.

Monitoring points used by the harness (all off by default):
  hooks.on_begin(env, write) / hooks.on_commit(env, seq, changes) - may raise, in which
      case nothing of that transaction becomes visible (crash before commit).
Misuse that real LMDB would turn into a deadlock or undefined behaviour (write
transaction inside a write transaction on one thread, use after the transaction
ended, use of a closed environment) raises here.
"""
import io
import os
import uuid
import threading
from bisect import bisect_left, bisect_right

from sortedcontainers import SortedDict, SortedList

MAXKEY = 511


class Error(Exception):
    pass


class KeyExistsError(Error):
    pass


class NotFoundError(Error):
    pass


class BadValsizeError(Error):
    pass


class BadTxnError(Error):
    pass


class BadRslotError(Error):
    pass


class InvalidParameterError(Error):
    pass


class ReadonlyError(Error):
    pass


class MapFullError(Error):
    pass


class DbsFullError(Error):
    pass


class LockError(Error):
    pass


class _Hooks:
    on_begin = None
    on_commit = None


hooks = _Hooks()


class _Table:
    """One named database version.  rows: SortedDict key->bytes, or for dupsort
    key->SortedList of bytes."""
    __slots__ = ("dupsort", "rows", "pins", "ver")

    def __init__(self, dupsort):
        self.dupsort = dupsort
        self.rows = SortedDict()
        self.pins = 0
        self.ver = 0

    def clone(self):
        t = _Table(self.dupsort)
        if self.dupsort:
            t.rows = SortedDict((k, SortedList(v)) for k, v in self.rows.items())
        else:
            t.rows = self.rows.copy()
        t.ver = self.ver
        return t


class _State:
    def __init__(self):
        self.tables = {None: _Table(False)}
        self.seq = 0
        self.writer = None
        self.lock = threading.RLock()

    def snapshot(self):
        """Independent copy of the committed state (what a crash leaves)."""
        s = _State()
        s.tables = {k: t.clone() for k, t in self.tables.items()}
        s.seq = self.seq
        return s


_registry = {}


class _Database:
    def __init__(self, env, name, dupsort):
        self.env, self.name, self._dupsort = env, name, dupsort

    def flags(self, *args):
        return dict(reverse_key=False, dupsort=self._dupsort, integer_key=False,
                    dupfixed=False, integer_dup=False, reverse_dup=False)


def _k(key):
    if isinstance(key, str):
        raise TypeError("Won't implicitly convert Unicode to bytes; use .encode()")
    if isinstance(key, (bytes, bytearray, memoryview)):
        return bytes(key)
    raise TypeError(f"a bytes-like object is required, not {type(key).__name__!r}")


class Environment:
    def __init__(self, path, max_dbs=0, map_size=10485760, mode=0o755, readonly=False, create=True,
                 subdir=True, **kwa):
        self._path = os.path.realpath(path)
        self.max_dbs, self.map_size, self.readonly = max_dbs, map_size, readonly
        marker = os.path.join(self._path, "data.mdb")
        if not os.path.isdir(self._path):
            if readonly or not create:
                raise Error(f"{path}: No such file or directory")
            os.makedirs(self._path, mode=0o755)
        ident = None
        if os.path.exists(marker):
            with io.open(marker) as f:
                ident = f.read()
        entry = _registry.get(self._path)
        if ident is None or entry is None or entry[0] != ident:
            if readonly and ident is None:
                raise Error(f"{path}: No such file or directory")
            if ident is None:
                ident = uuid.uuid4().hex
                with io.open(marker, "w") as f:
                    f.write(ident)
                with io.open(os.path.join(self._path, "lock.mdb"), "w") as f:
                    f.write("")
            # state is looked up by marker identity so that a copied or moved
            # directory is seen as the same database content
            for _, (oid, ost) in list(_registry.items()):
                if oid == ident:
                    entry = (ident, ost.snapshot())
                    break
            else:
                entry = (ident, _State())
            _registry[self._path] = entry
        self._state = entry[1]
        self._state.writer = None
        self._closed = False
        self._dbs = {}
        self._txns = set()

    # -- API
    def path(self):
        return self._path

    def max_key_size(self):
        return MAXKEY

    def flags(self):
        return {}

    def stat(self):
        return {"entries": len(self._state.tables[None].rows) + len(self._state.tables) - 1}

    def info(self):
        return {"map_size": self.map_size, "last_txnid": self._state.seq}

    def sync(self, force=False):
        self._check()

    def _check(self):
        if self._closed:
            raise Error("Attempt to operate on closed/deleted/dropped object.")

    def open_db(self, key=None, txn=None, reverse_key=False, dupsort=False, create=True, **kwa):
        self._check()
        if key is not None:
            key = _k(key)
        db = self._dbs.get(key)
        if db is not None:
            return db
        st = self._state
        if key not in st.tables:
            if self.readonly or not create:
                raise NotFoundError("mdb_dbi_open: MDB_NOTFOUND")
            if len([k for k in st.tables if k is not None]) >= self.max_dbs:
                raise DbsFullError("mdb_dbi_open: MDB_DBS_FULL")
            st.tables[key] = _Table(bool(dupsort))
            st.seq += 1
        db = self._dbs[key] = _Database(self, key, st.tables[key].dupsort)
        return db

    def begin(self, db=None, parent=None, write=False, buffers=False):
        self._check()
        if write and self.readonly:
            raise ReadonlyError("Permission denied")
        return Transaction(self, db, write, buffers)

    def close(self):
        if not self._closed:
            for t in list(self._txns):
                t.abort()
            self._closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def open(path, **kwa):
    return Environment(path, **kwa)


class Transaction:
    def __init__(self, env, db, write, buffers):
        st = env._state
        if hooks.on_begin is not None:
            hooks.on_begin(env, write)
        if write:
            if st.writer is not None:
                raise BadTxnError("write transaction while another write transaction is open (deadlock)")
            st.writer = self
        self.env, self._db, self._write, self._buffers = env, db, write, buffers
        self._done = False
        self._own = {}  # name -> private table (write txn)
        self._base = dict(st.tables)  # name -> committed table at begin
        self._pinned = set()
        self._mut = 0
        self._log = [] if (write and hooks.on_commit is not None) else None
        env._txns.add(self)
        if not write:
            self._table(self._name(None))  # pin the snapshot now

    def _check(self):
        if self._done:
            raise BadTxnError("Attempt to operate on closed/deleted/dropped object.")
        self.env._check()

    def _name(self, db):
        db = db if db is not None else self._db
        return db.name if db is not None else None

    def _table(self, name, forwrite=False):
        if forwrite:
            if not self._write:
                raise ReadonlyError("mdb_put: Permission denied")
            t = self._own.get(name)
            if t is None:
                t = self._own[name] = self._base[name].clone() if self._base[name].pins else _Shadow(self._base[name])
            return t
        t = self._own.get(name)
        if t is not None:
            return t
        t = self._base.get(name)
        if t is None:
            # db handle opened after the snapshot
            t = self.env._state.tables[name]
            self._base[name] = t
        if name not in self._pinned:
            t.pins += 1
            self._pinned.add(name)
        return t

    def _finish(self):
        self._done = True
        self.env._txns.discard(self)
        for n in self._pinned:
            self._base[n].pins -= 1
        if self._write and self.env._state.writer is self:
            self.env._state.writer = None

    def commit(self):
        self._check()
        st = self.env._state
        if self._write and self._mut:
            try:
                if hooks.on_commit is not None:
                    hooks.on_commit(self.env, st.seq + 1, self._log or [])
            except BaseException:
                self.abort()
                raise
            for n, t in self._own.items():
                if isinstance(t, _Shadow):
                    t = t.table
                    t.ver += 1
                else:
                    t.ver += 1
                    st.tables[n] = t
            st.seq += 1
        self._finish()

    def abort(self):
        if self._done:
            return
        for t in self._own.values():
            if isinstance(t, _Shadow):
                t.rollback()
        self._finish()

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, et, ev, tb):
        if self._done:
            return
        if et is None:
            self.commit()
        else:
            self.abort()

    def __del__(self):
        try:
            self.abort()
        except Exception:
            pass

    def _out(self, b):
        return memoryview(b) if self._buffers else b

    @staticmethod
    def _badkey(key):
        if not key or len(key) > MAXKEY:
            raise BadValsizeError("mdb: MDB_BAD_VALSIZE: Unsupported size of key/DB name/data, or wrong DUPFIXED size")

    def get(self, key, default=None, db=None):
        self._check()
        key = _k(key)
        self._badkey(key)
        t = self._table(self._name(db))
        v = t.rows.get(key)
        if v is None:
            return default
        return self._out(v[0] if t.dupsort else v)

    def put(self, key, value, dupdata=True, overwrite=True, append=False, db=None):
        self._check()
        key, value = _k(key), _k(value)
        self._badkey(key)
        name = self._name(db)
        t = self._table(name, True)
        if t.dupsort and len(value) > MAXKEY:
            raise BadValsizeError("mdb_put: MDB_BAD_VALSIZE")
        if name is None and key in self.env._state.tables:
            raise Error("mdb_put: MDB_INCOMPATIBLE")
        cur = t.rows.get(key)
        if t.dupsort:
            if cur is not None:
                if not overwrite:
                    return False
                if value in cur:
                    # MDB_NODUPDATA only when dupdata False
                    return bool(dupdata)
                t.dupadd(key, value)
            else:
                t.setrow(key, SortedList([value]))
        else:
            if cur is not None and not overwrite:
                return False
            t.setrow(key, value)
        self._mut += 1
        if self._log is not None:
            self._log.append(("put", name, key, value))
        return True

    def delete(self, key, value=b"", db=None):
        self._check()
        key, value = _k(key), _k(value)
        self._badkey(key)
        name = self._name(db)
        t = self._table(name, True)
        cur = t.rows.get(key)
        if cur is None:
            return False
        if t.dupsort and value:
            if value not in cur:
                return False
            t.dupdel(key, value)
        else:
            t.delrow(key)
        self._mut += 1
        if self._log is not None:
            self._log.append(("del", name, key, value))
        return True

    def replace(self, key, value, db=None):
        old = self.get(key, db=db)
        self.put(key, value, db=db)
        return old

    def pop(self, key, db=None):
        old = self.get(key, db=db)
        if old is not None:
            old = bytes(old)
            self.delete(key, db=db)
        return old

    def drop(self, db, delete=True):
        self._check()
        t = self._table(db.name, True)
        for k in list(t.rows):
            t.delrow(k)
        self._mut += 1

    def stat(self, db):
        t = self._table(self._name(db))
        return {"entries": sum(len(v) for v in t.rows.values()) if t.dupsort else len(t.rows)}

    def cursor(self, db=None):
        self._check()
        return Cursor(db if db is not None else self._db, self)


class _Shadow:
    """In-place writes to an unpinned committed table with an undo log (cheap
    common case: nobody else holds a snapshot of it)."""
    __slots__ = ("table", "undo", "dupsort")

    def __init__(self, table):
        self.table, self.undo, self.dupsort = table, [], table.dupsort

    @property
    def rows(self):
        return self.table.rows

    def _save(self, key):
        v = self.table.rows.get(key)
        self.undo.append((key, SortedList(v) if (self.dupsort and v is not None) else v))

    def setrow(self, key, v):
        self._save(key)
        self.table.rows[key] = v

    def delrow(self, key):
        self._save(key)
        del self.table.rows[key]

    def dupadd(self, key, v):
        self._save(key)
        self.table.rows[key].add(v)

    def dupdel(self, key, v):
        self._save(key)
        self.table.rows[key].remove(v)
        if not self.table.rows[key]:
            del self.table.rows[key]

    def rollback(self):
        for key, v in reversed(self.undo):
            if v is None:
                self.table.rows.pop(key, None)
            else:
                self.table.rows[key] = v
        self.undo = []


def _setrow(self, key, v):
    self.rows[key] = v


def _delrow(self, key):
    del self.rows[key]


def _dupadd(self, key, v):
    self.rows[key].add(v)


def _dupdel(self, key, v):
    self.rows[key].remove(v)
    if not self.rows[key]:
        del self.rows[key]


_Table.setrow, _Table.delrow, _Table.dupadd, _Table.dupdel = _setrow, _delrow, _dupadd, _dupdel


class Cursor:
    """Position = (key, value) of the current entry or None."""

    def __init__(self, db, txn):
        self._txn, self._dbo = txn, db
        self._name = db.name if db is not None else None
        self._pos = None
        self._dead = False  # entry under cursor deleted, cursor sits on successor

    # -- helpers
    def _t(self):
        self._txn._check()
        if self._txn._write and self._name in self._txn._own:
            return self._txn._own[self._name]
        return self._txn._table(self._name)

    def _set(self, key, idx=0):
        t = self._t()
        if key is None:
            self._pos = None
            return False
        row = t.rows[key]
        self._pos = (key, row[idx] if t.dupsort else row)
        return True

    def _keyat(self, i):
        ks = self._t().rows.keys()
        return ks[i] if 0 <= i < len(ks) else None

    # -- getters
    def key(self):
        self._txn._check()
        return self._txn._out(self._pos[0] if self._pos else b"")

    def value(self):
        self._txn._check()
        return self._txn._out(self._pos[1] if self._pos else b"")

    def item(self):
        self._txn._check()
        return (self.key(), self.value())

    # -- movement
    def first(self):
        return self._set(self._keyat(0))

    def last(self):
        n = len(self._t().rows)
        return self._set(self._keyat(n - 1) if n else None, -1)

    def first_dup(self):
        if not self._pos:
            return False
        return self._set(self._pos[0], 0)

    def last_dup(self):
        if not self._pos:
            return False
        return self._set(self._pos[0], -1)

    def _step(self, d, nodup=False, duponly=False):
        t = self._t()
        if self._pos is None:
            if duponly:
                return False
            return self.first() if d > 0 else self.last()
        key, val = self._pos
        if self._dead:  # after delete the cursor already sits on the next entry
            self._dead = False
        if t.dupsort and not nodup:
            row = t.rows.get(key)
            if row is not None:
                i = row.bisect_right(val) if d > 0 else row.bisect_left(val) - 1
                if 0 <= i < len(row):
                    self._pos = (key, row[i])
                    return True
        if duponly:
            self._pos = None
            return False
        i = t.rows.bisect_right(key) if d > 0 else t.rows.bisect_left(key) - 1
        k = self._keyat(i)
        return self._set(k, 0 if d > 0 else -1)

    def next(self):
        return self._step(1)

    def prev(self):
        return self._step(-1)

    def next_dup(self):
        return self._step(1, duponly=True)

    def prev_dup(self):
        return self._step(-1, duponly=True)

    def next_nodup(self):
        return self._step(1, nodup=True)

    def prev_nodup(self):
        return self._step(-1, nodup=True)

    def set_key(self, key):
        key = _k(key)
        self._txn._badkey(key)
        return self._set(key if key in self._t().rows else None)

    def set_range(self, key):
        key = _k(key)
        if not key:
            return self.first()
        if len(key) > MAXKEY:
            raise BadValsizeError("mdb_cursor_get: MDB_BAD_VALSIZE")
        return self._set(self._keyat(self._t().rows.bisect_left(key)))

    def set_key_dup(self, key, value):
        key, value = _k(key), _k(value)
        row = self._t().rows.get(key)
        if row is not None and value in row:
            self._pos = (key, value)
            return True
        self._pos = None
        return False

    def get(self, key, default=None):
        return self.value() if self.set_key(key) else default

    # -- mutation
    def put(self, key, val, dupdata=True, overwrite=True, append=False):
        ok = self._txn.put(key, val, dupdata=dupdata, overwrite=overwrite, db=self._dbo)
        if ok:
            self._pos = (_k(key), _k(val))
        return ok

    def replace(self, key, val):
        old = self._txn.get(key, db=self._dbo)
        self.put(key, val)
        return bytes(old) if old is not None else None

    def pop(self, key):
        return self._txn.pop(key, db=self._dbo)

    def delete(self, dupdata=False):
        if self._pos is None:
            return False
        t = self._t()
        key, val = self._pos
        if key not in t.rows or (t.dupsort and val not in t.rows[key]):
            return False
        if t.dupsort and not dupdata:
            self._txn.delete(key, val, db=self._dbo)
        else:
            self._txn.delete(key, db=self._dbo)
        # cursor moves to the entry following the deleted one
        t = self._t()
        row = t.rows.get(key) if t.dupsort else None
        if row is not None:
            i = row.bisect_right(val)
            if i < len(row):
                self._pos = (key, row[i])
                return True
        self._set(self._keyat(t.rows.bisect_right(key)))
        return True

    def count(self):
        if self._pos is None:
            return 0
        t = self._t()
        return len(t.rows[self._pos[0]]) if t.dupsort else 1

    # -- iteration (py-lmdb: starts at current position, else first/last)
    def _iter(self, step, keys, values):
        while self._pos is not None:
            if keys and values:
                yield self.item()
            else:
                yield self.key() if keys else self.value()
            if not step():
                return

    def iternext(self, keys=True, values=True):
        if self._pos is None:
            self.first()
        return self._iter(self.next, keys, values)

    def iterprev(self, keys=True, values=True):
        if self._pos is None:
            self.last()
        return self._iter(self.prev, keys, values)

    def iternext_dup(self, keys=False, values=True):
        return self._iter(self.next_dup, keys, values)

    def iterprev_dup(self, keys=False, values=True):
        return self._iter(self.prev_dup, keys, values)

    def iternext_nodup(self, keys=True, values=False):
        if self._pos is None:
            self.first()
        return self._iter(self.next_nodup, keys, values)

    def __iter__(self):
        return self.iternext()

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass
