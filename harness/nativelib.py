"""Native store over the lmdb stand-in."""
import vboot
import logging


def quiet():
    from keri.help import helping  # noqa: F401
    import keri.help as h
    try:
        h.ogler.resetLevel(level=logging.CRITICAL + 10, globally=True)
    except Exception:
        pass
    logging.disable(logging.CRITICAL)


quiet()
_pool = {}


def native(tag="verif", every=80):
    """LMDBer shared by successive cases of this process; a fresh one every so often."""
    from keri.db.dbing import LMDBer
    db, n = _pool.get(tag, (None, 0))
    if db is None or n >= every:
        if db is not None:
            db.close(clear=True)
        db, n = LMDBer(name=tag, temp=True, reopen=True), 0
    _pool[tag] = (db, n + 1)
    return db, b"case%d." % n
